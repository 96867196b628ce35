"""Builds the code under test from /repo's current working tree, in a scratch directory.

Nothing is written under /repo or /opt/vp.  Extensions whose inputs are the ones recorded in
/repo/build/vp-stamp are taken from there; the others are translated and compiled again.
VERIF_TREE names an already built tree to use instead (development only).
"""

from __future__ import annotations

import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from contextlib import contextmanager
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PY = "/opt/venv/bin/python"
OPT = "sonolus/backend/_opt"


class BuildError(Exception):
    pass


def _sha(p: Path) -> str:
    return hashlib.sha256(p.read_bytes()).hexdigest()


def _stamp_line(rel: str) -> str:
    return f"{_sha(REPO / rel)}  {rel}"


def _ignore(d, names):
    return [n for n in names if n == "__pycache__" or n.endswith((".pyc", ".so", ".cpp"))]


def _version_lines() -> list[str]:
    v = subprocess.run(
        [PY, "-c", 'import sys, Cython, setuptools; print(sys.version.replace("\\n", " "), Cython.__version__, setuptools.__version__)'],
        capture_output=True, text=True, env=_env(), check=False).stdout.splitlines()
    c = subprocess.run(["c++", "--version"], capture_output=True, text=True, check=False).stdout.splitlines()[:1]
    return v + c


def _env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PIP_NO_INDEX="1")
    for k in ("SONOLUS_OPT_DEBUG_BUILD", "PYTHONPATH", "PYTHONHASHSEED"):
        e.pop(k, None)
    return e


def build_into(tree: Path) -> None:
    shutil.copytree(REPO / "sonolus", tree / "sonolus", ignore=_ignore)
    for f in ("setup.py", "pyproject.toml", "README.md", "LICENSE", "MANIFEST.in"):
        if (REPO / f).exists():
            shutil.copy(REPO / f, tree / f)
    if (REPO / "test_projects").exists():
        shutil.copytree(REPO / "test_projects", tree / "test_projects", ignore=_ignore)
    opt = REPO / OPT
    pyx = sorted(p.name for p in opt.glob("*.pyx"))
    stamp_file = REPO / "build" / "vp-stamp"
    stamp = set(stamp_file.read_text().splitlines()) if stamp_file.exists() else set()
    shared = [f"{OPT}/{p.name}" for g in ("*.pxd", "*.h") for p in opt.glob(g)] + ["setup.py", "pyproject.toml"]
    base_ok = (
        bool(stamp)
        and all(_stamp_line(s) in stamp for s in shared)
        and {s.split("  ", 1)[1] for s in stamp if "  " in s and not s.endswith(".pyx") and len(s.split("  ", 1)[0]) == 64} == set(shared)
        and all(v in stamp for v in _version_lines())
    )
    for p in (tree / OPT).iterdir():
        if p.is_file():
            os.utime(p, (1_000_000_000, 1_000_000_000))
    stale = []
    for name in pyx:
        stem = name[:-4]
        cpp = opt / f"{stem}.cpp"
        so = list(opt.glob(f"{stem}.cpython-*.so"))
        if base_ok and cpp.exists() and len(so) == 1 and _stamp_line(f"{OPT}/{name}") in stamp:
            shutil.copy(cpp, tree / OPT / cpp.name)
            os.utime(tree / OPT / cpp.name, (1_100_000_000, 1_100_000_000))
            shutil.copy(so[0], tree / OPT / so[0].name)
            os.utime(tree / OPT / so[0].name, (1_200_000_000, 1_200_000_000))
        else:
            stale.append(stem)
    if stale:
        r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace", "-j", "8"], cwd=tree, env=_env(),
                           capture_output=True, text=True, check=False)
        if r.returncode != 0:
            raise BuildError((r.stdout + r.stderr)[-3000:])
    for name in pyx:
        if not list((tree / OPT).glob(f"{name[:-4]}.cpython-*.so")):
            raise BuildError(f"no extension for {name}")


@contextmanager
def built_tree():
    given = os.environ.get("VERIF_TREE")
    if given:
        yield Path(given)
        return
    d = Path(tempfile.mkdtemp(prefix="verif-tree-"))
    try:
        build_into(d)
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    dest = Path(sys.argv[1])
    dest.mkdir(parents=True)
    build_into(dest)
