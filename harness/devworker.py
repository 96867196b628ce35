"""Drive the development server through histories of spec/DevServer.tla and record what it serves.

argv: out.json progress-file hists.json first
"""

import http.client
import json
import os
import random
import re
import select
import shutil
import socket
import subprocess
import sys
import tempfile
import threading
from pathlib import Path

from devproj import Disk, read_site

BOOT = ("import shim,sys; sys.argv=['sonolus-py','dev','proj','--port',sys.argv[1],*sys.argv[2:]]\n"
        "from sonolus.build.cli import main\nmain()")


class Hung(Exception):
    pass


class Server:
    def __init__(self, root, args):
        for _ in range(5):
            with socket.socket() as q:
                q.bind(("", 0))
                self.port = q.getsockname()[1]
            env = dict(os.environ, PYTHONUNBUFFERED="1", PYTHONDONTWRITEBYTECODE="1")
            self.p = subprocess.Popen([sys.executable, "-c", BOOT, str(self.port), *args], cwd=root, env=env, stdin=subprocess.PIPE,
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, bufsize=0)
            self.text = self.wait()
            if "Address already in use" not in self.text:
                return
            self.stop()
        raise RuntimeError("no port")

    def wait(self, limit=60):
        """Output up to the next prompt (or the end)."""
        out, late = b"", []
        t = threading.Timer(limit, lambda: (late.append(1), self.p.kill()))
        t.start()
        try:
            while not out.endswith(b"\n> "):
                c = self.p.stdout.read(1)
                if not c:
                    break
                out += c
        finally:
            t.cancel()
        if late:
            raise Hung
        return out.decode("utf-8", "replace")

    def command(self, line):
        # requests are logged, with a prompt, before they are answered
        while select.select([self.p.stdout], [], [], 0)[0]:
            if not os.read(self.p.stdout.fileno(), 65536):
                break
        self.p.stdin.write((line + "\n").encode())
        return self.wait()

    def get(self, path):
        c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=20)
        try:
            c.request("GET", "/sonolus/" + path)
            r = c.getresponse()
            data = r.read()
            if r.status != 200:
                raise ValueError(f"{path}: status {r.status}")
            return data
        finally:
            c.close()

    def stop(self):
        self.p.kill()
        self.p.wait()
        self.p.stdout.close()


def run(root, hist, rng):
    disk, steps = Disk(root), []
    p0 = hist[0]["p"]
    r0 = {"r1": {"skin": 1, "levels": [{"n": "rl", "v": 2}]}, "r2": {"skin": 5, "levels": []}}
    disk.write_project(p0)
    for d, r in r0.items():
        disk.write_resources(d, r)
    srv = None
    try:
        for h in hist:
            st = {"a": h["a"], "p": h["p"], "d": h["d"], "r": h["r"]}
            if h["a"] == "start":
                srv = Server(root, rng.choice([["-O0"], ["-O1"], ["-O2"], []]) + rng.choice([[], ["--gc"]]))
            elif h["a"] == "project":
                disk.write_project(h["p"])
            elif h["a"] == "resources":
                disk.write_resources(h["d"], h["r"])
            else:
                if h["a"] == "meanwhile":
                    disk.later(h["d"], h["r"])
                text = srv.command(rng.choice(["r", "rebuild"]))
                if (root / "hook.py").exists():
                    (root / "hook.py").unlink()
                    disk.write_resources(h["d"], h["r"])
                st["said"] = text[-300:]
            if h["a"] not in ("project", "resources"):
                st["msgs"] = -1
                try:
                    st["obs"], notes = read_site(srv.get)
                    said = "".join(srv.command(f"d {n}") for n in notes if n >= 0)
                    if m := re.findall(r"message (\d+)", said):
                        st["msgs"] = int(m[-1])
                except Hung:
                    raise
                except Exception as e:  # noqa: BLE001
                    st["obs"] = {"error": f"{type(e).__name__}: {e}"[:300]}
            steps.append(st)
    except Hung:
        steps.append({"a": "rebuild", "p": hist[0]["p"], "d": "", "r": [], "obs": {"error": "the server hangs"}, "msgs": -1})
    finally:
        if srv:
            srv.stop()
    return {"p0": p0, "r0": r0, "steps": steps}


def main():
    out, prog, hists, first = sys.argv[1:]
    cases = []
    for i, h in enumerate(json.loads(Path(hists).read_text())):
        Path(prog).write_text(f"hist/{int(first) + i}")
        root = Path(tempfile.mkdtemp(prefix="verif-dev-"))
        try:
            cases.append({"id": f"hist/{int(first) + i}", **run(root, h, random.Random(f"dev/{int(first) + i}"))})
        finally:
            shutil.rmtree(root, ignore_errors=True)
    Path(out).write_text(json.dumps(cases))


main()
