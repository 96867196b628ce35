"""Drive Collection through histories and record what it does.

argv: out.json progress-file (hist file first | rand seed n)
"""

import gzip
import hashlib
import io
import json
import random
import shutil
import sys
import tempfile
import warnings
import zipfile
from contextlib import redirect_stdout
from pathlib import Path

from sonolus.build.collection import Collection

warnings.simplefilter("ignore")
CATS = ["levels", "engines", "skins", "effects", "particles", "backgrounds", "posts", "playlists", "replays"]
LANGS = ["de", "en", "es", "fr", "ja", "ko", "zh-hans", "zh-hant"]
NAMES = ["a", "b", "c", "long-name_1", "v1.0", "v1.2", "x.json", "ü n", "a b%20c", "日本", "A", "infos", ".hidden"]


def desc(data: bytes) -> str:
    """Content of an asset, up to how it was compressed."""
    if data[:2] == b"\x1f\x8b":
        try:
            return "gz:" + gzip.decompress(data).hex()
        except Exception:  # noqa: BLE001
            pass
    return "raw:" + data.hex()


class Driver:
    def __init__(self, n, root: Path, rng: random.Random):
        self.cols = [Collection() for _ in range(n)]
        self.root, self.rng, self.steps = root, rng, []
        self.known: dict[str, str] = {}   # hash -> content
        self.packs: list[Path] = []       # sites written
        self.count = 0

    def tmp(self, name):
        self.count += 1
        return self.root / f"{name}{self.count}"

    def learn(self, data):
        self.known[hashlib.sha1(data).hexdigest()] = desc(data)

    def enc(self, v):
        if isinstance(v, str):
            return ["s", v]
        if v is None:
            return ["z"]
        if isinstance(v, bool):
            return ["b", "true" if v else "false"]
        if isinstance(v, int | float):
            return ["n", repr(v)]
        if isinstance(v, list | tuple):
            return ["a", [self.enc(x) for x in v]]
        if isinstance(v, dict):
            if set(v) == {"hash", "url"} and v["url"] == f"/sonolus/repository/{v['hash']}":
                if v["hash"] not in self.known:
                    for c in self.cols:
                        if v["hash"] in c.repository:
                            self.learn(c.repository[v["hash"]])
                if v["hash"] in self.known:
                    return ["srl", self.known[v["hash"]]]
            return ["o", {str(k): self.enc(x) for k, x in v.items()}]
        raise TypeError(f"not JSON: {v!r}")

    def step(self, o, c, fn, cat="", n="", **kw):
        try:
            with redirect_stdout(io.StringIO()):
                r = fn()
            r = ["ok"] if o not in ("asset", "get", "default") else self.enc(r)
        except Exception as e:  # noqa: BLE001
            r = ["error"]
            kw["err"] = f"{type(e).__name__}: {e}"[:200]
        self.steps.append({"o": o, "c": c + 1, "cat": cat, "n": n, "r": r, **{k: v() if callable(v) else v for k, v in kw.items()}})

    # -- operations ------------------------------------------------------------------------
    def add(self, c, cat, n, item):
        v = self.enc(item)
        self.step("add", c, lambda: self.cols[c].add_item(cat, n, item), cat, n, v=v)

    def asset(self, c, data):
        self.learn(data)
        form = data
        if self.rng.random() < 0.3:
            form = self.tmp("asset")
            form.write_bytes(data)
        out = []
        self.step("asset", c, lambda: out.append(self.cols[c].add_asset(form)) or out[0], n=desc(data))
        return out[0] if out else None

    def source(self, c, items):
        """items: [(category, name, item | None (invalid), [(file name, bytes)])]"""
        d = self.tmp("src")
        d.mkdir()
        src = []
        for cat, n, item, files in items:
            q = d / cat / n
            q.mkdir(parents=True)
            (q / "item.json").write_text("{nope" if item is None else json.dumps(item, ensure_ascii=self.rng.random() < 0.5), encoding="utf-8")
            res = []
            for fname, data in files:
                (q / fname).write_bytes(data)
                self.learn(data)
                z = Path(fname).suffix.lower() in (".json", ".bin")
                res.append({"k": Path(fname).stem, "a": "gz:" + data.hex() if z else desc(data)})
            src.append({"cat": cat, "n": n, "item": ["bad"] if item is None else self.enc(item), "res": [] if item is None else res})
        if self.rng.random() < 0.5:
            (d / "README.md").write_text("x")
            (d / "levels").mkdir(exist_ok=True)
            (d / "levels" / "stray.txt").write_text("x")
            (d / "levels" / "no-item").mkdir()
        self.step("source", c, lambda: self.cols[c].load_from_source(d if self.rng.random() < 0.5 else str(d)), src=src)

    def load(self, c, site: Path):
        """A package of a written site, its entries in any order."""
        base = site / "sonolus"
        files = sorted(p for p in base.rglob("*") if p.is_file())
        if self.rng.random() < 0.7:
            self.rng.shuffle(files)
        prefix = "sonolus/" if self.rng.random() < 0.7 else ""
        es, buf = [], io.BytesIO()
        with zipfile.ZipFile(buf, "w") as zf:
            if self.rng.random() < 0.5:
                zf.writestr(prefix + "levels/", b"")
                zf.writestr(prefix + "README", b"hello")
                zf.writestr(prefix + "unknown/x", b"{}")
            for p in files:
                rel, data = p.relative_to(base), p.read_bytes()
                zf.writestr(prefix + rel.as_posix(), data)
                if len(rel.parts) < 2 or rel.name in ("info", "list"):
                    continue
                if rel.parts[0] == "repository":
                    self.learn(data)
                    es.append({"cat": "repository", "n": desc(data), "d": ["asset"]})
                else:
                    es.append({"cat": rel.parts[0], "n": rel.name, "d": json.loads(data)})
            if self.rng.random() < 0.2:
                zf.writestr(prefix + "levels/broken", b"{nope")
        for e in es:
            if e["cat"] != "repository":
                e["d"] = self.enc(e["d"])
        data = buf.getvalue()
        if self.rng.random() < 0.4:
            f = self.tmp("pack")
            f.write_bytes(data)
            data = f
        self.step("load", c, lambda: self.cols[c].load_from_scp(data), es=es)

    def write(self, c, again=None):
        d = again or self.tmp("site")
        fresh = again is None
        self.step("write", c, lambda: self.cols[c].write(d if self.rng.random() < 0.5 else str(d)), site=lambda: self.observe(d), fresh=fresh)
        if self.steps[-1]["r"] == ["ok"]:
            self.packs.append(d)

    def observe(self, d: Path):
        base = d / "sonolus"
        out, later = [], []
        for p in sorted(x for x in d.rglob("*") if x.is_file()):
            parts = p.relative_to(base).parts if p.is_relative_to(base) else ("?", *p.relative_to(d).parts)
            if parts[0] == "repository":
                data = p.read_bytes()
                self.learn(data)
                ok = len(parts) == 2 and hashlib.sha1(data).hexdigest() == parts[1]
                out.append({"p": ["repository", desc(data) if ok else "/".join(parts[1:])], "v": ["asset"] if ok else ["wrong hash"]})
            else:
                later.append((parts, p))
        for parts, p in later:
            try:
                v = self.enc(json.loads(p.read_text(encoding="utf-8")))
            except Exception as e:  # noqa: BLE001
                v = ["unreadable", str(e)[:80]]
            out.append({"p": list(parts), "v": v})
        return out


# -- histories TLC enumerated ---------------------------------------------------------------------
def small_item(cat, v):
    use = {"useDefault": True}
    if cat == "levels":
        return {"name": "l", "version": int(v), "engine": "e", "useSkin": {"useDefault": False, "item": "s"} if v == "1" else use,
                "useBackground": {"useDefault": True}, "useEffect": {"useDefault": True}, "useParticle": {"useDefault": True}}
    return {"name": cat[0], "version": int(v)}


def replay(drv, ops):
    last = None
    for op in ops:
        c = op["c"] - 1
        if op["o"] == "add":
            drv.add(c, op["cat"], {"levels": "l", "engines": "e", "skins": "s"}[op["cat"]], small_item(op["cat"], op["v"]))
        elif op["o"] == "update":
            other = 1 - c
            drv.step("update", c, lambda c=c, other=other: drv.cols[c].update(drv.cols[other]), d=other + 1)
        elif op["o"] == "write":
            drv.write(c)
        elif drv.packs:
            drv.load(c, drv.packs[-1])
    for c in range(len(drv.cols)):
        drv.write(c)


# -- random histories -------------------------------------------------------------------------------
def rand_text(r):
    return r.choice(["T", "", {"en": "E", "ja": "J"}, {"ja": "J"}, {"fr": "F", "de": "D"}, {"ko": "K", "zh-hans": "Z"}, {}, {"en": ""}])


def rand_item(r, drv, cat, n, srls):
    it = {"version": r.choice([1, 2, 12]), "n": r.random() < 0.5, "x": r.choice([None, 1.5, [], {"k": [1, "two", {}]}])}
    if r.random() < 0.8:
        it["name"] = n
    for k in ("title", "subtitle", "author", "description", "artists"):
        if r.random() < 0.4:
            it[k] = rand_text(r)
    if r.random() < 0.3:
        it["meta"] = {"a": 1}
    if r.random() < 0.4:
        it["tags"] = [{"title": rand_text(r), **({"icon": "i"} if r.random() < 0.5 else {})} for _ in range(r.randint(0, 2))]
    if srls and r.random() < 0.5:
        it["thumbnail"] = dict(r.choice(srls))
    if cat == "levels":
        it["engine"] = r.choice(["a", "a", "b", "v1.0", {"name": "a", "version": 99}, {"name": "zzz"}, {"version": 3}])
        for k in ("useSkin", "useBackground", "useEffect", "useParticle"):
            z = r.random()
            it[k] = ({"useDefault": True} if z < 0.5 else
                     {"useDefault": False, "item": r.choice(["a", "b", "nope", {"name": "a", "old": 1}, {"name": "nope"}, {"x": 1}])})
    return it


def history(drv, r):
    srls, items = [], []
    data = [bytes(r.choices(b"xyz{}", k=r.randint(0, 4))) for _ in range(4)] + [gzip.compress(b"q", mtime=0), b"\x1f\x8bzz", b"[1]"]
    names = r.sample(NAMES, 3) + ["a", "b"]
    cats = ["levels", "engines", "skins", *r.sample(CATS[3:], 2)]

    def one_item(files=False):
        cat, n = r.choice(cats), r.choice(names)
        return cat, n, rand_item(r, drv, cat, n, srls if not files else [])

    for _ in range(r.randint(4, 14)):
        c = r.randrange(len(drv.cols))
        z = r.random()
        if z < 0.35:
            cat, n, it = r.choice(items) if items and r.random() < 0.25 else one_item()
            items.append((cat, n, it))
            drv.add(c, cat, n, it)
        elif z < 0.45:
            s = drv.asset(c, r.choice(data))
            srls += [s] if s else []
        elif z < 0.55:
            batch, seen = [], set()
            for _ in range(r.randint(1, 3)):
                cat, n, it = one_item(files=True)
                if r.random() < 0.1:
                    cat = "other"
                if (cat, n) in seen:
                    continue
                seen.add((cat, n))
                fs = r.sample(["thumbnail.png", "data.json", "data2.BIN", "texture.Json", "configuration", "bgm.mp3", "rom.bin"], r.randint(0, 3))
                batch.append((cat, n, None if r.random() < 0.1 else it, [(f, r.choice(data)) for f in fs]))
            drv.source(c, batch)
        elif z < 0.63:
            if drv.packs:
                drv.load(c, r.choice(drv.packs))
        elif z < 0.71 and len(drv.cols) > 1:
            d = r.choice([x for x in range(len(drv.cols)) if x != c])
            drv.step("update", c, lambda c=c, d=d: drv.cols[c].update(drv.cols[d]), d=d + 1)
        elif z < 0.77:
            drv.step("link", c, lambda c=c: drv.cols[c].link())
        elif z < 0.87:
            drv.write(c, r.choice(drv.packs) if drv.packs and r.random() < 0.3 else None)
        elif z < 0.93:
            cat, n = r.choice(cats), r.choice(names)
            drv.step("get", c, lambda c=c, cat=cat, n=n: drv.cols[c].get_item(cat, n), cat, n)
        elif z < 0.97:
            cat = r.choice(cats)
            drv.step("default", c, lambda c=c, cat=cat: drv.cols[c].get_default_item(cat), cat)
        else:
            n = r.choice(["My site", "é"])
            drv.step("name", c, lambda c=c, n=n: setattr(drv.cols[c], "name", n), n=n)
    for c in range(len(drv.cols)):
        drv.write(c)
        if drv.steps[-1]["r"] == ["ok"] and r.random() < 0.5:   # a written package loads to the same again
            drv.cols.append(Collection())
            drv.load(len(drv.cols) - 1, drv.packs[-1])
            n = drv.cols[c].name
            drv.step("name", len(drv.cols) - 1, lambda n=n: setattr(drv.cols[-1], "name", n), n=n)
            drv.write(len(drv.cols) - 1)


def main():
    out, prog, mode, arg, n = sys.argv[1:]
    cases = []
    root = Path(tempfile.mkdtemp(prefix="verif-col-"))
    try:
        if mode == "hist":
            jobs = [(int(n) + i, h) for i, h in enumerate(json.loads(Path(arg).read_text()))]
        else:
            jobs = [(int(arg) + i, None) for i in range(int(n))]
        for j, h in jobs:
            Path(prog).write_text(f"{mode}/{j}")
            rng = random.Random(f"col/{mode}/{j}")
            d = root / str(j)
            d.mkdir()
            drv = Driver(2 if h is not None else rng.randint(1, 3), d, rng)
            if h is not None:
                replay(drv, h)
            else:
                history(drv, rng)
            cases.append({"id": f"{mode}/{j}", "n": len(drv.cols), "steps": drv.steps})
            shutil.rmtree(d)
        Path(out).write_text(json.dumps(cases))
    finally:
        shutil.rmtree(root, ignore_errors=True)


main()
