"""C04: snapshot identity <=> structure and raw data.

A graph spec (plain data) is realised many times: same spec in other definition orders, roots
respelled, on other backends, before/after building, re-opened, in other processes with other hash
seeds -> the same id. Single-point mutations of the spec -> a different id.
"""
import copy
import datetime
import pickle
from pathlib import Path
from typing import Annotated

from arti import Annotation, Artifact, Graph, Producer, Statistic, producer
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.partitions import DateField, Int64Field, PartitionKey
from arti.storage import StoragePartitions
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Collection, Date, Float64, Int64, List, Map, String, Struct
from arti.versions import SemVer
from arti.versions import String as StringVersion
from arti.producers import PartitionDependencies

from core import Violation, in_child

PROP = "C04"
CASES = {"quick": 1200, "thorough": 16000}
SECONDS = {"quick": 100, "thorough": 1200}


class Note(Annotation):
    text: str


class Flag(Annotation):
    text: str


class Plain(Artifact):
    pass


class Fancy(Artifact):
    pass


TYPES = {"int": Int64(), "str": String(), "ints": List(element=Int64()), "floats": List(element=Float64()), "map": Map(key=String(), value=Int64())}
HINTS = {"int": int, "str": str, "ints": list[int], "floats": list[float], "map": dict[str, int]}
ROW = Struct(fields={"k": Int64(), "v": Int64()})
DROW = Struct(fields={"k": Date(), "v": Int64()})
PTYPES = {"pint": Collection(element=ROW, partition_by=("k",)), "pdate": Collection(element=DROW, partition_by=("k",))}
CLASSES = {"Plain": Plain, "Fancy": Fancy, "Artifact": Artifact}


def value(t, n):
    return {"int": n, "str": f"s{n}", "ints": [n, n + 1], "floats": [n / 4], "map": {f"k{n}": n}}[t]


# ------------------------------------------------------------------ spec
class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.i = 0
        self.vals = 1000

    def nxt(self):
        self.vals += self.rng.randint(1, 9)
        return self.vals

    def name(self, stem):
        self.i += 1
        return self.rng.choice(["", "", "ns.", "a.b."]) + f"{stem}{self.i}"

    def spec(self):
        r = self.rng
        s = {"name": r.choice(["g", "my graph", "é", "a/b", "x[1]"]) + str(r.randrange(100)), "tags": r.choice([{}, {"env": "prod"}, {"b": "2", "a": "1"}]), "raws": {}, "steps": {}}
        for _ in range(r.choice([1, 2, 2, 3])):
            kind = r.choice(["literal", "file", "file", "file", "part"])
            n = self.name("r")
            raw = {"kind": kind, "cls": r.choice(list(CLASSES)), "fmt": "json" if kind == "literal" else r.choice(["json", "pickle"]), "notes": r.choice([[], [], ["x"], ["x", "y"]])}
            if kind == "part":
                raw["type"] = r.choice(list(PTYPES))
                raw["parts"] = {self.nxt() % 20000: self.nxt() for _ in range(r.choice([1, 2, 4]))}
            else:
                raw["type"] = r.choice(list(TYPES))
                raw["value"] = self.nxt()
            s["raws"][n] = raw
        avail = [(n, None) for n, x in s["raws"].items() if x["kind"] != "part"]
        for _ in range(r.choice([0, 1, 2, 3])):
            if not avail:
                break
            self.i += 1
            cls = f"Step{self.i}"
            k = r.randint(1, min(3, len(avail)))
            ins = dict(zip([f"p{j}" for j in range(k)], r.choices(avail, k=k) if r.random() < 0.2 else r.sample(avail, k)))
            outs = [self.name("o") for _ in range(r.choice([1, 1, 2]))]
            st = {"cls": cls, "ins": ins, "outs": outs, "version": r.choice([("semver", 0, 0, 1), ("semver", 1, 2, 3), ("str", "a", 0, 0)]), "otypes": [r.choice(["int", "str"]) for _ in outs],
                  "ostore": [r.choice(["literal", "file"]) for _ in outs], "ocls": [r.choice(list(CLASSES)) for _ in outs]}
            s["steps"][cls] = st
            avail += [(outs[j], None) for j in range(len(outs))]
        return s


def all_types(s):
    return {**{n: r["type"] for n, r in s["raws"].items()}, **{o: t for st in s["steps"].values() for o, t in zip(st["outs"], st["otypes"])}}


def all_classes(s):
    return {**{n: r["cls"] for n, r in s["raws"].items()}, **{o: t for st in s["steps"].values() for o, t in zip(st["outs"], st["ocls"])}}


def version(v):
    return StringVersion(value=v[1]) if v[0] == "str" else SemVer(major=v[1], minor=v[2], patch=v[3])


_classes: dict = {}


def producer_class(s, st):
    types = all_types(s)
    ins = tuple(sorted((p, types[n]) for p, (n, _) in st["ins"].items()))
    sig = (st["cls"], ins, tuple(st["otypes"]), tuple(st["version"]), st.get("note", ""))
    if sig not in _classes:
        params = ", ".join(f"{p}: H_{t}" for p, t in ins)
        ret = ", ".join(f"H_{t}" for t in st["otypes"])
        ret = ret if len(st["otypes"]) == 1 else f"tuple[{ret}]"
        body = ", ".join({"int": "7", "str": "'x'"}[t] for t in st["otypes"])
        ns = {f"H_{t}": h for t, h in HINTS.items()} | {"producer": producer, "V": version(st["version"]), "Note": Note}
        notes = f", annotations=(Note(text={st['note']!r}),)" if st.get("note") else ""
        exec(f"@producer(version=V{notes})\ndef {st['cls']}({params}) -> {ret}:\n    return {body}\n", ns)
        _classes[sig] = ns[st["cls"]]
    return _classes[sig]


def fmt(f):
    return JSON() if f == "json" else Pickle()


def raw_path(root, s, n, raw):
    base = f"{root}/raw/{n}"
    return f"{base}/{{k.value}}/data{{extension}}" if raw["kind"] == "part" and raw["type"] == "pint" else f"{base}/{{k.iso}}/data{{extension}}" if raw["kind"] == "part" else f"{base}/data{{extension}}"


def dump(raw, data):
    import json

    return json.dumps(data).encode() if raw["fmt"] == "json" else pickle.dumps(data)


def write_raw(root, n, raw):
    """The stored bytes of a raw artifact, written without the library."""
    import shutil

    base = Path(root) / "raw" / n
    if raw["kind"] == "literal":
        return
    if base.exists():
        shutil.rmtree(base)
    if raw["kind"] == "file":
        base.mkdir(parents=True)
        (base / f"data.{raw['fmt']}").write_bytes(dump(raw, value(raw["type"], raw["value"])))
    else:
        for k, v in raw["parts"].items():
            key = str(k) if raw["type"] == "pint" else (datetime.date(1970, 1, 1) + datetime.timedelta(days=k)).isoformat()
            (base / key).mkdir(parents=True)
            (base / key / f"data.{raw['fmt']}").write_bytes(dump(raw, [{"k": k, "v": v}]))


def realise(root, s, rng=None, backend=None, build_data=True, classes=CLASSES):
    """Define the graph (in a random valid order) and put exactly the spec's raw data in place."""
    import json

    if build_data:
        for n, raw in s["raws"].items():
            write_raw(root, n, raw)
    kw = {} if backend is None else {"backend": backend}
    g = Graph(name=s["name"], path_tags=dict(s["tags"]), **kw)
    todo = [("raw", n) for n in s["raws"]] + [("step", c) for c in s["steps"]]
    if rng is not None:
        rng.shuffle(todo)
    done: set = set()
    reopen = rng is not None and rng.random() < 0.3

    def put(item):
        kind, k = item
        if kind == "raw":
            raw = s["raws"][k]
            notes = tuple(Note(text=t) if not t.startswith("!") else Flag(text=t[1:]) for t in raw["notes"])
            st = StringLiteral(value=json.dumps(value(raw["type"], raw["value"]))) if raw["kind"] == "literal" else LocalFile(path=raw_path(root, s, k, raw))
            art = classes[raw["cls"]](type={**TYPES, **PTYPES}[raw["type"]] if "desc" not in raw else {**TYPES, **PTYPES}[raw["type"]].model_copy(update={"description": raw["desc"]}), format=fmt(raw["fmt"]), storage=st, **({"annotations": notes} if notes else {}))
            g.artifacts[k] = art
            done.add(k)
        else:
            st = s["steps"][k]
            P = producer_class(s, st)
            p = P(**{q: g.artifacts[n] for q, (n, _) in (st["ins"].items() if rng is None or rng.random() < 0.5 else reversed(list(st["ins"].items())))})
            outs = [
                classes[c](type=TYPES[t], format=JSON(), storage=StringLiteral() if sto == "literal" else LocalFile.rooted_at(f"{root}/out"))
                for c, t, sto in zip(st["ocls"], st["otypes"], st["ostore"])
            ]
            made = p.out(*outs)
            made = made if isinstance(made, tuple) else (made,)
            pairs = list(zip(st["outs"], made))
            if rng is not None and rng.random() < 0.5:
                pairs.reverse()
            for o, a in pairs:
                g.artifacts[o] = a
                done.add(o)

    def ready(item):
        return item[0] == "raw" or all(n in done for n, _ in s["steps"][item[1]]["ins"].values())

    chunks = [todo]
    if reopen:
        i = rng.randint(0, len(todo))
        chunks = [todo[:i], todo[i:]]
    pending: list = []
    for chunk in chunks:
        pending += chunk
        with g:
            progress = True
            while progress and pending:
                progress = False
                for item in list(pending):
                    if ready(item):
                        put(item)
                        pending.remove(item)
                        progress = True
        if reopen and rng.random() < 0.5:
            try:
                g.snapshot()
            except ValueError:
                pass
            g.fingerprint
    assert not pending, pending
    return g


CHILD = """
import sys; sys.path.insert(0, P['here'])
import random, c04
from arti.backends.memory import MemoryBackend
R = []
for root, spec, seed in P['jobs']:
    g = c04.realise(root, spec, random.Random(seed), build_data=False)
    R.append(int(g.snapshot().id))
"""


# ------------------------------------------------------------------ mutations
def mutations(rng, s, g):
    """(label, spec') pairs whose id must differ."""
    out = []

    def mut(label, fn):
        t = copy.deepcopy(s)
        if fn(t) is not False:
            out.append((label, t))

    mut("graph-name", lambda t: t.update(name=s["name"] + "2"))
    mut("tag-added", lambda t: t["tags"].update(zzz="1"))
    if s["tags"]:
        k = rng.choice(list(s["tags"]))
        mut("tag-changed", lambda t: t["tags"].update({k: s["tags"][k] + "x"}))
        mut("tag-removed", lambda t: t["tags"].pop(k) and None)
    rn = rng.choice(list(s["raws"]))
    raw = s["raws"][rn]

    def rename(t, a, b):
        for part in ("raws",):
            t[part] = {(b if n == a else n): x for n, x in t[part].items()}
        for st in t["steps"].values():
            st["ins"] = {p: ((b if n == a else n), None) for p, (n, _) in st["ins"].items()}
            st["outs"] = [b if n == a else n for n in st["outs"]]

    names = [*s["raws"], *(o for st in s["steps"].values() for o in st["outs"])]
    vic = rng.choice(names)
    mut("artifact-renamed", lambda t: rename(t, vic, "renamed" + vic.replace(".", "")))
    mut("artifact-nested", lambda t: rename(t, vic, "zz." + vic))
    other = next(c for c in CLASSES if c != raw["cls"])
    mut("raw-class", lambda t: t["raws"][rn].update(cls=other))
    mut("annotation-added", lambda t: t["raws"][rn]["notes"].append("new"))
    if raw["notes"]:
        mut("annotation-changed", lambda t: t["raws"][rn]["notes"].__setitem__(0, "changed"))
        mut("annotation-class", lambda t: t["raws"][rn]["notes"].__setitem__(0, "!" + raw["notes"][0]))
        mut("annotation-removed", lambda t: t["raws"][rn]["notes"].pop() and None)
    if len(set(raw["notes"])) > 1:
        mut("annotation-order", lambda t: t["raws"][rn]["notes"].reverse())
    if raw["kind"] != "literal":
        mut("raw-format", lambda t: t["raws"][rn].update(fmt="pickle" if raw["fmt"] == "json" else "json"))
    if raw["kind"] == "part":
        ks = list(raw["parts"])
        mut("partition-added", lambda t: t["raws"][rn]["parts"].update({max(ks) + 1: g.nxt()}))
        mut("partition-content", lambda t: t["raws"][rn]["parts"].update({ks[0]: g.nxt()}))
        mut("partition-rekeyed", lambda t: t["raws"][rn].update(parts={(max(ks) + 3 if k == ks[0] else k): v for k, v in raw["parts"].items()}))
        if len(ks) > 1:
            mut("partition-removed", lambda t: t["raws"][rn]["parts"].pop(ks[0]) and None)
            a, b = ks[:2]
            mut("partition-swapped", lambda t: t["raws"][rn]["parts"].update({a: raw["parts"][b], b: raw["parts"][a]}))
    else:
        mut("content", lambda t: t["raws"][rn].update(value=g.nxt()))
        usable = [n for n in s["raws"] if s["raws"][n]["type"] == raw["type"] and s["raws"][n]["kind"] != "part" and n != rn]
        if usable:
            o = usable[0]
            mut("contents-swapped", lambda t: (t["raws"][rn].update(value=s["raws"][o]["value"]), t["raws"][o].update(value=raw["value"])) and None)
        # a different type for the same stored bytes
        if not any(rn == n for st in s["steps"].values() for n, _ in st["ins"].values()) and raw["type"] == "ints":
            def retype(t):
                t["raws"][rn]["type"] = "floats"
                return False  # contents differ as well: covered by raw-type below
            mut("x", retype)
    mut("raw-added", lambda t: t["raws"].update({"extra_raw": {"kind": "literal", "cls": "Plain", "fmt": "json", "notes": [], "type": "int", "value": 1}}))
    if s["steps"]:
        c = rng.choice(list(s["steps"]))
        st = s["steps"][c]
        mut("version", lambda t: t["steps"][c].update(version=("str", "other" + str(g.nxt()), 0, 0)))
        if st["version"][:2] == ("semver", 0):
            mut("version-patch", lambda t: t["steps"][c].update(version=("semver", 0, 0, 2)))

        def recls(t):
            t["steps"][c]["cls"] = "Renamed" + c
        mut("producer-class", recls)
        mut("output-class", lambda t: t["steps"][c]["ocls"].__setitem__(0, next(x for x in CLASSES if x != st["ocls"][0])))
        mut("output-storage", lambda t: t["steps"][c]["ostore"].__setitem__(0, "literal" if st["ostore"][0] == "file" else "file"))
        # rewire one parameter to another artifact of the same type that feeds nothing
        types = all_types(s)
        produced = {o for q in s["steps"].values() for o in q["outs"]}
        p = rng.choice(list(st["ins"]))
        cur = st["ins"][p][0]
        used = {n for n, _ in st["ins"].values()}
        alts = [n for n in s["raws"] if types[n] == types[cur] and n not in used]
        if alts:
            mut("rewired", lambda t: t["steps"][c]["ins"].__setitem__(p, (alts[0], None)))
        same = [q for q in st["ins"] if st["ins"][q] != st["ins"][p] and types[st["ins"][q][0]] == types[cur]]
        if same:
            q = same[0]
            mut("inputs-swapped", lambda t: t["steps"][c]["ins"].update({p: st["ins"][q], q: st["ins"][p]}))
        # which output (of one or of two steps) is assigned to which key
        slots = [(k, j) for k, q in s["steps"].items() for j in range(len(q["outs"]))]
        sig = lambda k, j: tuple(s["steps"][k][f][j] for f in ("otypes", "ostore", "ocls"))  # noqa: E731
        fed = {n for q in s["steps"].values() for n, _ in q["ins"].values()}
        swaps = [(a, b) for a in slots for b in slots if a < b and sig(*a) == sig(*b) and (a[0] == b[0] or not {s["steps"][k]["outs"][j] for k, j in (a, b)} & fed)]
        if swaps:
            (ka, ja), (kb, jb) = rng.choice(swaps)

            def swap(t):
                x, y = t["steps"][ka]["outs"], t["steps"][kb]["outs"]
                x[ja], y[jb] = y[jb], x[ja]
            mut("outputs-swapped" if ka == kb else "producers-swapped", swap)
        last = list(s["steps"])[-1]
        if not any(n in s["steps"][last]["outs"] for q in s["steps"].values() for n, _ in q["ins"].values()):
            mut("step-removed", lambda t: t["steps"].pop(last) and None)
    return out


def retyped(ctx, root, s, rng, base_id, backend):
    """Same stored bytes, another declared type, format class or storage template."""
    files = [n for n, r in s["raws"].items() if r["kind"] == "file"]
    if not files:
        return
    n = rng.choice(files)
    if any(n == m for st in s["steps"].values() for m, _ in st["ins"].values()):
        return
    raw = s["raws"][n]

    def alt(label, **kw):
        g = realise(root, {**s, "raws": {k: v for k, v in s["raws"].items() if k != n}}, None, MemoryBackend())
        write_raw(root, n, raw)
        notes = tuple(Note(text=t) for t in raw["notes"])
        args = dict(type=TYPES[raw["type"]], format=fmt(raw["fmt"]), storage=LocalFile(path=raw_path(root, s, n, raw)), **({"annotations": notes} if notes else {}))
        same = dict(args)
        with g:
            g.artifacts[n] = CLASSES[raw["cls"]](**{**same, **kw})
        return g.snapshot().id

    ctx.check(alt("same") == base_id, f"re-defining raw {n} unchanged changed the id")
    t = TYPES[raw["type"]]
    for label, kw in [
        ("nullable", {"type": t.model_copy(update={"nullable": True})}),
        ("type", {"type": Float64() if raw["type"] != "floats" else Int64()}),
        ("storage-template", {"storage": LocalFile(path=raw_path(root, s, n, raw).replace("/data", "/../" + n + "/data"))}),
    ]:
        ctx.check(alt(label, **kw) != base_id, f"changing the {label} of raw {n} left the id unchanged")
        ctx.n["mutation:raw-" + label] += 1
    ctx.check(alt("description", type=t.model_copy(update={"description": "words"})) == base_id, "a type's description changed the id")


def twins(ctx, root, rng, name):
    """Several raw artifacts (possibly equal ones) reading the same stored bytes."""
    base = root / "twins"
    base.mkdir()
    path = base / "data.json"
    classes = rng.choices(list(CLASSES.values()), k=rng.choice([2, 2, 3, 4]))
    labels = rng.sample(["a", "b", "n.c", "d"], len(classes))
    backend = MemoryBackend()

    def ident(order):
        with Graph(name=name, backend=backend if rng.random() < 0.5 else MemoryBackend()) as g:
            for i in order:
                g.artifacts[labels[i]] = classes[i](type=Int64(), format=JSON(), storage=LocalFile(path=f"{base}/data{{extension}}"))
        return g.snapshot().id

    order = list(range(len(classes)))
    path.write_text("1")
    one = ident(order)
    path.write_text("2")
    two = ident(order)
    ctx.check(one != two, "changed data shared by several raw artifacts left the id unchanged", classes=[c.__name__ for c in classes])
    rng.shuffle(order)
    ctx.check(ident(order) == two, "the order of raw artifacts sharing data changed the id", classes=[c.__name__ for c in classes])
    path.write_text("1")
    ctx.check(ident(order) == one, "restoring data shared by several raw artifacts did not restore the id")
    ctx.n["shared_data"] += 1
    ctx.seen(("twins", tuple(c.__name__ for c in classes)))
    ctx.rmdir(base)


_jobs: list = []


def flush(ctx):
    if not _jobs:
        return
    import os

    hs = ctx.n["children"] * 7919 + 11
    got = in_child(CHILD, {"here": os.path.dirname(os.path.abspath(__file__)), "jobs": [(r, s, seed) for r, s, seed, _ in _jobs]}, hs % 4294967295)
    ctx.n["children"] += 1
    for (r, s, seed, want), g in zip(_jobs, got):
        ctx.check(g == want, "another process computes another snapshot id", want=want, got=g, spec=s)
        ctx.n["cross_process"] += 1
        ctx.rmdir(Path(r))
    _jobs.clear()


def case(ctx, rng):
    gen = Gen(rng)
    s = gen.spec()
    root = ctx.tmpdir()
    b1 = MemoryBackend()
    g = realise(root, s, None, b1)
    snap = g.snapshot()
    base = snap.id
    shape = (len(s["raws"]), sorted(r["kind"] for r in s["raws"].values()), [(len(x["ins"]), len(x["outs"])) for x in s["steps"].values()])
    ctx.seen(("base", s["name"], shape), {"spec": repr(s)[:400], "id": int(base)} if len(ctx.samples) < 2 else None)
    # same identity
    ctx.check(g.snapshot().id == base, "snapshotting again gives another id")
    for _ in range(3):
        g2 = realise(root, s, rng, MemoryBackend() if rng.random() < 0.7 else b1, build_data=rng.random() < 0.5)
        ctx.check(g2.snapshot().id == base, "an equal definition (other order or backend) has another id", spec=s)
        ctx.n["redefinitions"] += 1
    b = g.build()
    ctx.check(b.id == base and g.snapshot().id == base, "building changed the id", spec=s)
    g3 = realise(root, s, rng, b1, build_data=False)
    ctx.check(g3.snapshot().id == base, "an equal definition after a build has another id", spec=s)
    ctx.n["rebuilt"] += 1
    # rewriting identical bytes, reverting a change
    files = [n for n, r in s["raws"].items() if r["kind"] != "literal"]
    if files:
        n = rng.choice(files)
        write_raw(root, n, s["raws"][n])
        ctx.check(g.snapshot().id == base, "rewriting identical bytes changed the id")
        alt = copy.deepcopy(s["raws"][n])
        if alt["kind"] == "part":
            alt["parts"] = {k + 1: v for k, v in alt["parts"].items()}
        else:
            alt["value"] = gen.nxt()
        write_raw(root, n, alt)
        ctx.check(g.snapshot().id != base, "changed stored data left the id unchanged", spec=s, raw=n)
        write_raw(root, n, s["raws"][n])
        ctx.check(g.snapshot().id == base, "restoring the data did not restore the id")
        ctx.n["reverts"] += 1
    for n, r in s["raws"].items():
        if r["kind"] == "file" and rng.random() < 0.5 and r["type"] in HINTS:
            # the same through the library
            g.write(value(r["type"], r["value"]), artifact=g.artifacts[n]) if r["type"] not in ("zzz",) else None
            ctx.check(g.snapshot().id == base, "writing the same value changed the id", raw=n)
    # different identity
    ids = {int(base): "base"}
    specs = {"base": repr(s)}
    muts = mutations(rng, s, gen)
    rng.shuffle(muts)
    for label, t in muts[: 14 if ctx.tier == "quick" else 30]:
        root2 = root
        gm = realise(root2, t, rng, MemoryBackend())
        i = int(gm.snapshot().id)
        ctx.check(i != base, f"{label}: a different graph or state has the same id", before=s, after=t)
        if i in ids and specs[ids[i]] != repr(t):
            raise Violation(f"{label} and {ids[i]} give the same id: {t!r} / {specs[ids[i]]}")
        ids[i] = label
        specs[label] = repr(t)
        ctx.n["mutation:" + label] += 1
        ctx.seen(("mutation", label, shape))
        gone = set(t["raws"]) - set(s["raws"])
        import shutil
        for n in gone:
            shutil.rmtree(root / "raw" / n, ignore_errors=True)
    for n in s["raws"]:
        write_raw(root, n, s["raws"][n])
    retyped(ctx, root, s, rng, base, b1)
    twins(ctx, root, rng, s["name"])
    # a raw artifact without data
    fs = [n for n, r in s["raws"].items() if r["kind"] != "literal"]
    if fs:
        import shutil
        n = rng.choice(fs)
        shutil.rmtree(root / "raw" / n)
        ctx.raises(ValueError, g.snapshot, f"snapshot without data for {n}")
        ctx.raises(ValueError, g.build, f"build without data for {n}")
        ctx.raises(ValueError, realise(root, s, rng, MemoryBackend(), build_data=False).snapshot, f"snapshot without data for {n}")
        ctx.n["missing_raw"] += 1
        write_raw(root, n, s["raws"][n])
        ctx.check(g.snapshot().id == base, "restoring the missing data did not restore the id")
    lit = Graph(name="lit")
    with lit:
        lit.artifacts.x = Artifact(type=Int64(), storage=StringLiteral())
    ctx.raises(ValueError, lit.snapshot, "snapshot with an unwritten literal")
    for n in s["raws"]:
        write_raw(root, n, s["raws"][n])
    if rng.random() < 0.5:
        _jobs.append((str(root), s, rng.random(), int(base)))
        if len(_jobs) >= 12:
            flush(ctx)
    else:
        ctx.rmdir(root)


def teardown(ctx):
    flush(ctx)
