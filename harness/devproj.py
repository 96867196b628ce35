"""A project on disk whose parts can be edited, and what the site made of it shows."""

import gzip
import json
import os
import shutil
import time
from pathlib import Path

LIB = '''
from sonolus.script.debug import debug_log, notify

def report():
    debug_log({code})
    notify("message {code}")
{broken}
'''

PROJECT = '''
from pathlib import Path
from sonolus.script.archetype import PlayArchetype, imported
from sonolus.script.engine import Engine, EngineData, PlayMode
from sonolus.script.level import Level, LevelData
from sonolus.script.project import Project
from proj import lib

class Init(PlayArchetype):
    name = "Init"
    value: float = imported()

    def initialize(self):
        lib.report()

def data(v):
    return LevelData(bgm_offset=0, entities=[Init(value=v)])

def convert(k):
    def run(level):
        if {fault!r} == "converter":
            raise ValueError("cannot convert")
        return data(level.entities[0].data["value"] * 10 + k)
    return run

def levels():
    hook = Path({root!r}) / "hook.py"
    if hook.exists():
        text = hook.read_text()
        hook.unlink()
        exec(text)
    for n, v in {levels!r}:
        yield Level(name=n, data=data(v), use_skin="nope" if {fault!r} == "level" else None)

engine = Engine(name={engine!r}, title={engine!r}, skin="nope" if {fault!r} == "missing" else "s",
                data=EngineData(play=PlayMode(archetypes=[Init])))
project = Project(engine=engine, levels=levels, resources=Path({root!r}) / {dir!r}, converters={converters})
{syntax}
'''


class Disk:
    """The project as edited: fields are those of spec/DevServer.tla."""

    def __init__(self, root: Path):
        self.root = root
        (root / "proj").mkdir(parents=True)
        (root / "proj" / "__init__.py").write_text("")

    def write_project(self, p):
        conv = {"none": "{}", "named": f"{{'other': convert({p['k']})}}", "any": f"{{None: convert({p['k']})}}"}[p["conv"]]
        self._put(self.root / "proj" / "lib.py",
                  LIB.format(code=1000 + p["code"], broken="    async_thing = yield from [1]\n" if p["fault"] == "compile" else ""))
        self._put(self.root / "proj" / "project.py", PROJECT.format(
            root=str(self.root), levels=[(l["n"], l["v"]) for l in p["levels"]], engine=p["engine"], dir=p["dir"], fault=p["fault"],
            converters=conv, syntax="this is not python" if p["fault"] == "import" else ""))

    def _put(self, path, text):
        if not path.exists() or path.read_text() != text:
            path.write_text(text)

    def write_resources(self, d, r):
        """Directory d holds what r says: skin version, and levels with values."""
        time.sleep(0.012)  # file times are as coarse as the kernel's clock tick
        base = self.root / d
        for cat in ("skins", "backgrounds", "effects", "particles", "engines", "levels"):
            (base / cat).mkdir(parents=True, exist_ok=True)
        self._item(base / "skins" / "s", {"name": "s", "version": r["skin"]})
        for cat in ("backgrounds", "effects", "particles"):
            self._item(base / cat / "d", {"name": "d", "version": 1})
        self._item(base / "engines" / "other", {"name": "other", "version": 1})
        have = {l["n"] for l in r["levels"]}
        for q in (base / "levels").iterdir():
            if q.name not in have:
                shutil.rmtree(q)
        for l in r["levels"]:
            use = {k: {"useDefault": True} for k in ("useSkin", "useBackground", "useEffect", "useParticle")}
            q = base / "levels" / l["n"]
            self._item(q, {"name": l["n"], "version": 1, "engine": "other", **use})
            self._put(q / "data.json", json.dumps({"bgmOffset": 0, "entities": [
                {"name": "0_Init", "archetype": "Init", "data": [{"name": "value", "value": l["v"]}]}]}))

    def _item(self, d, item):
        d.mkdir(exist_ok=True)
        self._put(d / "item.json", json.dumps(item))

    def later(self, d, r):
        """The edit happens while the next build runs."""
        (self.root / "hook.py").write_text(
            f"import sys\nsys.path.insert(0, {str(Path(__file__).parent)!r})\nfrom devproj import Disk\n"
            f"d = Disk.__new__(Disk)\nd.root = Path({str(self.root)!r})\nd.write_resources({d!r}, {r!r})\nsys.path.pop(0)\n")


def read_site(get):
    """The site as a client follows it: lists, items, engines and level data.  get(path) fetches a file."""

    def js(*p):
        return json.loads(get("/".join(p)).decode("utf-8"))

    def asset(srl):
        return json.loads(gzip.decompress(get(f"repository/{srl['hash']}")))

    def code(engine):
        if "playData" not in engine:
            return 0
        vals = [n["value"] for n in asset(engine["playData"])["nodes"] if "value" in n]
        return int(max([v for v in vals if 1000 < v < 1100], default=0)) - 1000

    def skin(engine):
        return engine.get("skin", {}).get("version", 0)

    info = js("info")
    shown = [b["type"] + "s" for b in info["buttons"]]

    def listed(cat):
        if cat not in shown:
            return []
        q = js(cat, "list")["items"]
        if js(cat, "info")["sections"][0]["items"] != q:
            raise ValueError(f"{cat}: list and info differ")
        if len({i["name"] for i in q}) != len(q):
            raise ValueError(f"{cat}: listed twice")
        for i in q:
            if js(cat, i["name"])["item"] != i:
                raise ValueError(f"{cat}/{i['name']}: list and item differ")
        return q

    out = {
        "title": info["title"],
        "levels": [{"n": x["name"], "v": next(int(e["value"]) for e in asset(x["data"])["entities"][0]["data"] if e["name"] == "value"),
                    "engine": x["engine"]["name"], "code": code(x["engine"]), "skin": skin(x["engine"])} for x in listed("levels")],
        "engines": [{"n": e["name"], "code": code(e), "skin": skin(e)} for e in listed("engines")],
        "skins": [{"n": x["name"], "v": x["version"]} for x in listed("skins")],
    }
    notes = set()   # constants of the served engines' programs: message codes are among them
    for e in listed("engines"):
        if "playData" in e:
            notes |= {int(n["value"]) for n in asset(e["playData"])["nodes"] if "value" in n and n["value"] < 1000 and n["value"] == int(n["value"])}
    return out, sorted(notes)
