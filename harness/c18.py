"""C18: several threads defining, building and reading graphs, under an adversarial thread scheduler.

Every case runs the same jobs twice: at once in several threads (hand-overs forced at random lines of the
library, see sched.py) and then one after the other, alone. Results, errors and logs must agree. Some cases
run in a process forked from one in which no reader, writer or view was ever used. A recorded history of
operations on one shared backend is checked offline (completed writes are seen, tags are a compare-and-set
register that some sequential order explains).
"""
import copy
import itertools
import json
import os
import pickle
import random
import shutil
import signal
import sys
import threading
from pathlib import Path
from collections.abc import Sequence
from typing import Annotated, Any

import arti
from arti import Artifact, Graph, GraphSnapshot, PartitionDependencies, PartitionKey, Producer, StoragePartitions, View, producer
from arti import types as T
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.internal.mappings import frozendict
from arti.partitions import Int64Field
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile, LocalFilePartition

import core
from core import Inconclusive, Violation
from sched import Threads

PROP = "C18"
CASES = {"quick": 800, "thorough": 24000}
SECONDS = {"quick": 100, "thorough": 2400}
CASE_SECONDS = 240

PARTS = T.Collection(element=T.Struct(fields={"k": T.Int64(), "v": T.Int64()}), partition_by=("k",))


class Note(arti.Annotation):
    text: str


class Base(Artifact):
    type: T.Type = T.Int64()
    format: arti.Format = JSON()


# ---------------------------------------------------------------- jobs
def make_spec(rng, uid, name):
    n = rng.randrange(1, 4)
    raws = []
    for i in range(n):
        kind = rng.choice(["int", "int", "parts", "strs"])
        raws.append({
            "key": rng.choice(["", "ns.", "a.b."]) + f"raw{i}",
            "kind": kind,
            "fmt": rng.choice(["json", "pickle", "own", "own"]),
            "literal": kind != "parts" and rng.random() < 0.2,
            "value": rng.randrange(1000),
            "how": rng.choice(["file", "write"]),
        })
    steps = []
    for i in range(rng.randrange(1, 4)):
        steps.append({
            "uid": f"{uid}_step{i}" if rng.random() < 0.6 else f"step{i}",
            "style": rng.choice(["decorator", "class"]),
            "op": rng.choice(["sum", "sum", "pair", "each", "agg", "words"]),
            "src": rng.randrange(100),
            "src2": rng.randrange(100),
            "key": rng.choice(["", "out.", "ns."]) + f"o{i}",
            "fmt": rng.choice(["json", "pickle", "own"]),
            "literal": rng.random() < 0.25,
        })
    return {"uid": uid, "name": name, "raws": raws, "steps": steps, "tags": rng.choice([{}, {"env": uid}]),
            "own_io": rng.random() < 0.5, "tag": rng.choice([None, "latest"]), "twin": False}


HINTS = {"int": int, "strs": list[str], "parts": list}
TYPES = {"int": T.Int64(), "strs": T.List(element=T.String()), "parts": PARTS}


def raw_value(r):
    v = r["value"]
    if r["kind"] == "int":
        return v
    if r["kind"] == "strs":
        return [f"é{v}", "", str(v)]
    return {k: [{"k": k, "v": v + j} for j in range(1 + (v + k) % 3)] for k in range(1 + v % 3)}


class Defined:
    """A graph defined by the calling thread."""


def define(spec, root: Path, backend, like=None):
    """Define the spec's graph; `like` another definition of it (the classes are the same)."""
    log: list = [] if like is None else like.log
    classes: dict = {} if like is None else like.classes
    uid = spec["uid"]
    Own = classes["Own"] if like else type(f"Own{uid}", (JSON,), {"__module__": __name__, "__annotations__": {}})
    own_ios: list = []
    classes["Own"] = Own
    if spec["own_io"] and like is None:
        # A plugin defined by this thread: its files carry a marker that only its reader understands.
        def read_own(type_: T.Type, format: Own, storage_partitions: Sequence[LocalFilePartition], view: View) -> Any:
            own_ios.append("r")
            rows = [json.loads(Path(p.path).read_bytes()[4:]) for p in storage_partitions]
            return [x for r in rows for x in r] if T.is_partitioned(type_) else rows[0]

        def write_own(data: Any, type_: T.Type, format: Own, storage_partition: LocalFilePartition, view: View) -> None:
            own_ios.append("w")
            p = Path(storage_partition.path)
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(b"own:" + json.dumps(data).encode())

        arti.register_reader(read_own)
        arti.register_writer(write_own)

    def fmt(f, literal):
        return JSON() if literal else {"json": JSON, "pickle": Pickle, "own": Own}[f]()

    def store(stem, literal, value=None):
        return StringLiteral(value=value) if literal else LocalFile.rooted_at(root / stem)

    if arti.context.graph is not None:
        raise Violation("a thread starts with another thread's graph open")
    kinds: list = []
    arts: list = []
    with Graph(name=spec["name"], backend=backend, path_tags=spec["tags"]) as g:
        if arti.context.graph is not g:
            raise Violation("the open graph is another thread's")
        for i, r in enumerate(spec["raws"]):
            a = Artifact(type=TYPES[r["kind"]], format=fmt(r["fmt"], r["literal"]), storage=store(f"raw{i}", r["literal"], json.dumps(raw_value(r)) if r["literal"] else None), annotations=(Note(text=f"{uid}{i}"),))
            g.artifacts[r["key"]] = a
            kinds.append(r["kind"])
            arts.append(r["key"])
        for i, s in enumerate(spec["steps"]):
            op = s["op"]
            picks = {"sum": ("int", "int"), "pair": ("int",), "each": ("parts",), "agg": ("parts",), "words": ("strs",)}[op]
            found = []
            for j, want in enumerate(picks):
                have = [k for k, kind in zip(arts, kinds) if kind == want]
                if have:
                    found.append(have[(s["src2"] if j else s["src"]) % len(have)])
            if len(found) < len(picks):
                continue
            outs = {"sum": ["int"], "pair": ["int", "strs"], "each": ["parts"], "agg": ["int"], "words": ["strs"]}[op]
            params = {f"p{j}": k for j, k in enumerate(found)}
            P = classes[i] = classes.get(i) or make_producer(s, op, params, outs, log)
            results = P(**{p: g.artifacts[k] for p, k in params.items()})
            res = results.out(*(Artifact(type=TYPES[o], format=fmt(s["fmt"], s["literal"] and o != "parts"), storage=store(f"o{i}{j}", s["literal"] and o != "parts")) for j, o in enumerate(outs)))
            res = res if isinstance(res, tuple) else (res,)
            for j, (o, a) in enumerate(zip(outs, res)):
                key = s["key"] + ("" if j == 0 else "_b")
                g.artifacts[key] = a
                arts.append(key)
                kinds.append(o)
        if arti.context.graph is not g:
            raise Violation("the open graph changed to another thread's")
    if arti.context.graph is not None:
        raise Violation("a graph is still open after its definition")
    d = Defined()
    d.g, d.log, d.own_ios, d.arts, d.kinds, d.classes = g, log, own_ios, arts, kinds, classes
    return d


def sorted_rows(kind, data):
    return sorted(data, key=repr) if kind == "parts" else data


def job(spec, root: Path, backend, keep=None):
    """Define, build, read, change and rebuild one graph; return everything observable."""
    out: dict = {}
    d = define(spec, root, backend)
    uid = spec["uid"]
    g, log, own_ios, arts, kinds = d.g, d.log, d.own_ios, d.arts, d.kinds
    if keep is not None:
        keep.append(d)
    out["keys"] = sorted(k for k, _ in g.artifacts.walk())
    out["locations"] = {k: getattr(g.artifacts[k].storage, "path", None) or g.artifacts[k].storage.id for k in out["keys"]}
    out["fingerprint"] = int(g.fingerprint)

    def put(r):
        art = g.artifacts[r["key"]]
        v = raw_value(r)
        for pk, data in v.items() if r["kind"] == "parts" else [(None, v)]:
            key = PartitionKey() if pk is None else PartitionKey(k=Int64Field(value=pk))
            if r["how"] == "write" or r["fmt"] == "own":
                g.write(data, artifact=art, partition_key=key)
            else:
                p = Path(art.storage.generate_partition(partition_key=key).path)
                p.parent.mkdir(parents=True, exist_ok=True)
                content = json.dumps(data).encode() if r["fmt"] == "json" else pickle.dumps(data)
                if not (p.exists() and p.read_bytes() == content):  # (twins must not see each other's partial files)
                    tmp = p.with_name(f".{threading.get_ident()}")
                    tmp.write_bytes(content)
                    tmp.replace(p)

    def read_all(snap):
        return {k: sorted_rows(kind, snap.read(g.artifacts[k], annotation=HINTS[kind])) for k, kind in zip(arts, kinds)}

    for r in spec["raws"]:
        if not r["literal"]:
            put(r)
    s1 = g.build()
    out["id"] = int(s1.id)
    out["data"] = read_all(s1)
    out["current"] = read_all(g)
    if spec["twin"]:  # (the other twin may have built the data, and relies on the raw data not changing)
        return out
    out["calls"] = sorted(log)
    n = len(log)
    s2 = g.build()
    out["again"] = (int(s2.id), len(log) - n)
    if spec["tag"]:
        s1.tag(spec["tag"] + uid)
        back = GraphSnapshot.from_tag(spec["name"], spec["tag"] + uid, connectable=backend)
        out["tag"] = (int(back.id), back == s1)
    # a change to the raw data
    n = len(log)
    changed = [r for r in spec["raws"] if not r["literal"]][:1]
    for r in changed:
        r2 = {**r, "value": r["value"] + 1}
        put(r2)
        s3 = g.build()
        out["id3"] = int(s3.id)
        out["data3"] = read_all(s3)
        out["calls3"] = sorted(log[n:])
    out["old"] = {k: sorted_rows(kind, s1.read(g.artifacts[k], annotation=HINTS[kind])) for k, kind in zip(arts, kinds) if g.artifacts[k].producer_output is not None}
    with backend.connect() as c:
        out["parts"] = {k: sorted(int(p.fingerprint) for p in c.read_snapshot_partitions(s1, k, g.artifacts[k])) for k in arts}
        out["stored"] = (c.read_snapshot(spec["name"], s1.fingerprint) == s1, c.read_graph(spec["name"], g.fingerprint) == g)
    out["own"] = (own_ios.count("r"), own_ios.count("w"))
    return out


def make_producer(s, op, params, outs, log):
    """The producer class of a step, defined by the calling thread."""
    uid = s["uid"]

    def compute(*args):
        log.append(f"{uid}:{args!r}" if op not in ("each", "agg") else f"{uid}:{[sorted(a, key=repr) for a in args]!r}")
        if op == "sum":
            return args[0] + args[1]
        if op == "pair":
            return args[0] * 2, [f"{uid}{args[0]}"]
        if op == "each":
            return [{"k": r["k"], "v": r["v"] * 3} for r in args[0]]
        if op == "agg":
            return sum(r["v"] for r in args[0])
        return [w[::-1] for w in args[0]]

    def mapper(p0: StoragePartitions) -> PartitionDependencies:
        if op == "each":
            return PartitionDependencies({p.partition_key: frozendict(p0=(p,)) for p in p0})
        return PartitionDependencies({PartitionKey(): frozendict(p0=tuple(p0))})

    kind = {"sum": "int", "pair": "int", "each": "parts", "agg": "parts", "words": "strs"}[op]
    names = ", ".join(params)
    ns: dict = {"_c": compute}
    exec(f"def {uid}({names}):\n    return _c({names})", ns)  # noqa: S102
    fn = ns[uid]
    rets = [Annotated[HINTS[o], TYPES[o]] for o in outs]
    fn.__annotations__ = {**dict.fromkeys(params, Annotated[HINTS[kind], TYPES[kind]]), "return": rets[0] if len(rets) == 1 else tuple[tuple(rets)]}
    kw = {"map": mapper} if op in ("each", "agg") else {}
    if s["style"] == "decorator":
        return producer(**kw)(fn)
    body: dict = {"__module__": __name__, "__annotations__": dict.fromkeys(params, Artifact), "build": staticmethod(fn)}
    if kw:
        body["map"] = staticmethod(mapper)
    return type(Producer)(uid, (Producer,), body)


def outcome(fn):
    try:
        return ("ok", fn())
    except Violation:
        raise
    except Exception as e:
        return ("error", type(e).__name__, str(e)[:200])


def judge(res, what):
    """Results of Threads.run: raise for anything but a normal result."""
    for k, (status, r) in enumerate(res):
        if status == "stuck":
            raise Violation(f"{what}: a thread never finished")
        if status == "error":
            if isinstance(r, Violation):
                raise r
            import traceback

            tb = "".join(traceback.format_exception(r))[-1200:]
            raise Violation(f"{what}: thread {k} failed: {type(r).__name__}: {r}\n{tb}")
    return [r for _, r in res]


def count(ctx, t, what):
    ctx.n["lines"] += t.events
    ctx.n["handovers"] += t.handovers
    ctx.n[f"runs_{what}"] += 1
    ctx.seen(("schedule", t.trace.hexdigest()), {"kind": what, "lines": t.events, "handovers": t.handovers} if len(ctx.samples) < 3 else None)
    for s in t.sites:
        ctx.seen(("site", s))


def pipelines(ctx, rng):
    """Different graphs, each in its own thread."""
    root = ctx.tmpdir()
    specs, roots, shared = crowd(rng, root)
    common = MemoryBackend()
    t = Threads(rng.getrandbits(32))
    got = judge(t.run([lambda s=s, r=r: job(s, r, common if shared else MemoryBackend()) for s, r in zip(specs, roots)]), "concurrent graphs")
    count(ctx, t, "pipelines")
    alone(ctx, specs, roots, got, shared)
    ctx.rmdir(root)


def crowd(rng, root):
    n = rng.choice([2, 3, 4])
    same_name, shared = rng.random() < 0.5, rng.random() < 0.6
    specs = [make_spec(rng, f"u{i}", "g" if same_name else f"g{i}") for i in range(n)]
    roots = [root / f"r{i}" for i in range(n)]
    if rng.random() < 0.25:  # the same definition over the same data
        j = rng.randrange(1, n)
        specs[0] = specs[j] = {**specs[0], "twin": True, "own_io": False}
        roots[j] = roots[0]
    return specs, roots, shared


def alone(ctx, specs, roots, got, shared):
    for s, r, res in zip(specs, roots, got):
        shutil.rmtree(r, ignore_errors=True)
        want = job(s, r, MemoryBackend())
        for k in sorted(set(want) | set(res)):
            ctx.check(res.get(k) == want.get(k), f"`{k}` of a graph differs from when it is run alone", got=res.get(k), want=want.get(k), spec=s)
        ctx.n["jobs"] += 1
        ctx.n["twins"] += s["twin"]
        ctx.seen(("job", [r["kind"] for r in s["raws"]], [x["op"] for x in s["steps"]], shared, s["twin"]))


def closed(ctx, rng, root=None):
    """Several threads using one closed graph, none of whose derived properties were computed yet."""
    root = ctx.tmpdir()
    spec = {**make_spec(rng, "u0", "g"), "twin": True}
    backend = MemoryBackend()
    kept: list = []
    job(spec, root, backend, kept)
    kept[0].log.clear()
    d = define(spec, root, backend, kept[0])
    plans = [[(rng.choice(sorted(OPS)), rng.randrange(100)) for _ in range(rng.randrange(3, 9))] for _ in range(rng.choice([2, 3, 4]))]
    t = Threads(rng.getrandbits(32))
    got = judge(t.run([lambda plan=plan: [OPS[o](d, n) for o, n in plan] for plan in plans]), "one closed graph")
    count(ctx, t, "closed")
    e = define(spec, root, backend, kept[0])
    for plan, res in zip(plans, got):
        for (o, n), r in zip(plan, res):
            want = OPS[o](e, n)
            ctx.check(r == want and type(r) is type(want), f"`{o}` on a graph shared by threads differs from when it is used alone", got=r, want=want, spec=spec)
            ctx.n[f"op_{o}"] += 1
    ctx.check(d.log == [], "reading a built graph ran a step", log=d.log)
    ctx.rmdir(root)


def _pick(d, n):
    return n % len(d.arts)


def _art(d, n):
    return d.g.artifacts[d.arts[_pick(d, n)]]


def _copies(a):
    b = copy.deepcopy(a)
    return (b == a, hash(b) == hash(a), int(b.fingerprint), int(a.model_copy().fingerprint), int(copy.copy(a).fingerprint))


def _pickled(d, n):
    a = _art(d, n)
    return [(b == x, int(b.fingerprint)) for x in (a.type, a.storage, *a.annotations, *a.storage.discover_partitions()) for b in [pickle.loads(pickle.dumps(x))]]


def _produced(d, n):
    outs = [d.g.artifacts[k].producer_output for k in d.arts]
    return [o.producer for o in outs if o is not None]


OPS = {
    "read": lambda d, n: sorted_rows(d.kinds[_pick(d, n)], d.g.read(_art(d, n), annotation=HINTS[d.kinds[_pick(d, n)]])),
    "view": lambda d, n: sorted_rows(d.kinds[_pick(d, n)], d.g.snapshot().read(_art(d, n), view=View.from_annotation(Annotated[HINTS[d.kinds[_pick(d, n)]], _art(d, n).type], mode="READ"))),
    "snapshot": lambda d, n: int(d.g.snapshot().id),
    "build": lambda d, n: int(d.g.build().id),
    "fingerprint": lambda d, n: int(d.g.fingerprint),
    "art_fingerprint": lambda d, n: (int(_art(d, n).fingerprint), int(_art(d, n).storage.fingerprint)),
    "describe": lambda d, n: (repr(_art(d, n)), repr(d.g)),
    "dump": lambda d, n: (_art(d, n).model_dump_json(), len(d.g.model_dump_json())),
    "copy": lambda d, n: _copies(_art(d, n)),
    "copy_step": lambda d, n: [_copies(p) for p in _produced(d, n)],
    "describe_step": lambda d, n: [repr(p) for p in _produced(d, n)],
    "pickle": lambda d, n: _pickled(d, n),
    "producers": lambda d, n: (sorted(type(p).__name__ for p in d.g.producers), sorted((type(p).__name__, [o.producer_output.position for o in os]) for p, os in d.g.producer_outputs.items())),
    "dependencies": lambda d, n: sorted((int(k.fingerprint), sorted(int(x.fingerprint) for x in v)) for k, v in d.g.dependencies.items()),
    "keys": lambda d, n: sorted(d.g.artifact_to_key.values()),
    "equal": lambda d, n: (_art(d, n) == _art(d, n).model_copy(), _art(d, n) == d.g.artifacts[d.arts[0]], {_art(d, n): 1}[_art(d, n)]),
}


# ---------------------------------------------------------------- one backend, many connections
def history(ctx, rng):
    root = ctx.tmpdir()
    backend = MemoryBackend()
    names = ["g", "h"]
    graphs, snaps = [], []
    for name in names:
        with Graph(name=name) as g:
            g.artifacts.a = Base(storage=LocalFile(path=str(root / f"{name}.json")))
            g.artifacts.b = Base(storage=LocalFile(path=str(root / f"{name}-none.json")))
        graphs.append(g)
    parts = []
    for i in range(4):
        for g in graphs:
            f = root / f"{g.name}.json"
            f.write_text(str(i))
            part = g.artifacts.a.storage.discover_partitions()[0]
            parts.append(part)
            snaps.append(GraphSnapshot(graph=g, id=part.fingerprint))
    for g in graphs:
        (root / f"{g.name}.json").unlink()
    clock = itertools.count()
    record: list = []
    nthreads = rng.choice([2, 3, 4])
    hot = rng.random() < 0.6  # everyone uses the same few keys

    def plan():
        ops = []
        for _ in range(rng.randrange(2, 6)):
            s = rng.choice(snaps[:2] if hot else snaps)
            ops.append((rng.choice(["wtag", "wtag", "rtag", "wart", "rart", "wsnap_parts", "rsnap_parts", "both", "wgraph", "rgraph", "wsnap", "rsnap"]), s, rng.choice(["t", "u"]) if not hot else "t", rng.random() < 0.3, tuple(rng.sample(parts, rng.randrange(1, 3)))))
        return ops

    def apply(op, s, tag, over, ps):
        g = s.graph
        a = g.artifacts.b
        with backend.connect() as c:
            try:
                if op == "wtag":
                    return c.write_snapshot_tag(s, tag, over)
                if op == "rtag":
                    return c.read_snapshot_tag(s.name, tag)
                if op == "wart":
                    return c.write_artifact_partitions(a, ps)
                if op == "rart":
                    return c.read_artifact_partitions(a)
                if op == "wsnap_parts":
                    return c.write_snapshot_partitions(s, "b", a, ps)
                if op == "rsnap_parts":
                    return c.read_snapshot_partitions(s, "b", a)
                if op == "both":
                    return c.write_artifact_and_graph_partitions(s, "b", a, ps)
                if op == "wgraph":
                    return c.write_graph(g)
                if op == "rgraph":
                    return c.read_graph(g.name, g.fingerprint)
                if op == "wsnap":
                    return c.write_snapshot(s)
                if op == "rsnap":
                    return c.read_snapshot(s.name, s.fingerprint)
            except (KeyError, ValueError) as e:
                return e
        raise AssertionError(op)

    def body(ops):
        for op in ops:
            start = next(clock)
            r = apply(*op)
            record.append((start, next(clock), op, r))

    plans = [plan() for _ in range(nthreads)]
    t = Threads(rng.getrandbits(32))
    judge(t.run([lambda p=p: body(p) for p in plans]), "one shared backend")
    count(ctx, t, "history")
    # quiescent reads are part of the history
    for s in snaps[:2] if hot else snaps:
        for op in ("rtag", "rart", "rsnap_parts", "rgraph", "rsnap"):
            for tag in ("t", "u") if op == "rtag" else ("t",):
                start = next(clock)
                r = apply(op, s, tag, False, ())
                record.append((start, next(clock), (op, s, tag, False, ()), r))
    for start, end, (op, s, tag, over, ps), r in record:
        if op in ("wart", "wsnap_parts", "both", "wgraph", "wsnap"):
            ctx.check(r is None, f"{op} failed", result=r)
        if op in ("rart", "rsnap_parts"):
            writers = ("wart", "both") if op == "rart" else ("wsnap_parts", "both")
            same = [(b, e, x[4]) for b, e, x, _ in record if x[0] in writers and (x[1].graph.name == s.graph.name if op == "rart" else x[1] == s)]
            must = {p for b, e, ps_ in same if e < start for p in ps_}
            may = {p for b, e, ps_ in same if b < end for p in ps_}
            ctx.check(isinstance(r, tuple) and len(set(r)) == len(r), f"{op} returned duplicates or failed", result=r)
            ctx.check(must <= set(r) <= may, f"{op} lost or invented partitions", got=len(r), must=len(must), may=len(may), missing=len(must - set(r)))
            ctx.n["set_reads"] += 1
        if op in ("rgraph", "rsnap"):
            w = "wgraph" if op == "rgraph" else "wsnap"
            same = [(b, e) for b, e, x, _ in record if x[0] == w and (x[1].graph.name == s.graph.name if op == "rgraph" else x[1] == s)]
            if isinstance(r, KeyError):
                ctx.check(not any(e < start for _, e in same), f"{op} does not find what was written")
            else:
                ctx.check(r == (s.graph if op == "rgraph" else s) and any(b < end for b, _ in same), f"{op} returned something else", got=r)
            ctx.n["register_reads"] += 1
    for name in names:
        for tag in ("t", "u"):
            hist = [(b, e, ("w", x[1], x[3], r is None) if x[0] == "wtag" else ("r", None if isinstance(r, Exception) else r)) for b, e, x, r in record if x[0] in ("wtag", "rtag") and x[1].graph.name == name and x[2] == tag]
            if hist:
                ctx.check(linearizable(hist), "no sequential order of the tag operations explains their results", name=name, tag=tag, history=[(b, e, o[0], o[1] and int(o[1].id), *o[2:]) for b, e, o in hist])
                ctx.n["tag_histories"] += 1
                ctx.n["tag_contended"] += sum(1 for _, _, o in hist if o[0] == "w") > 1
    ctx.rmdir(root)


def linearizable(hist) -> bool:
    """Wing & Gong: does some order of the operations, respecting real time, explain every result?"""
    seen = set()

    def go(left: frozenset, value) -> bool:
        if not left:
            return True
        if (left, value and value.id) in seen:
            return False
        seen.add((left, value and value.id))
        first_end = min(hist[i][1] for i in left)
        for i in left:
            b, _, o = hist[i]
            if b > first_end:
                continue
            if o[0] == "r":
                if (o[1] is None) == (value is None) and (value is None or o[1] == value) and go(left - {i}, value):
                    return True
            else:
                _, snap, over, done = o
                if done == (value is None or over) and go(left - {i}, snap if done else value):
                    return True
        return False

    return go(frozenset(range(len(hist))), None)


# ---------------------------------------------------------------- first use in a process
def first_ops(rng, root):
    """Each thread's first use of the library's readers, writers and views."""
    ops = []
    for i in range(rng.choice([2, 3, 4])):
        ops.append((rng.choice(["job", "view", "from_annotation", "write_read", "producer"]), i, rng.randrange(100)))
    return ops


def first_op(spec, root, kind, i, n):
    hint = [int, str, float, list, dict, list[int], dict[str, int]][n % 7]
    if kind == "job":
        return job(spec, root / f"r{i}", MemoryBackend())
    if kind == "view":
        return View.get_class_for(hint).__qualname__
    if kind == "from_annotation":
        v = View.from_annotation(Annotated[[int, str, float, list][n % 3], Note(text="x")], mode=["READ", "WRITE", "READWRITE"][n % 3])
        return (type(v).__qualname__, v.model_dump_json())
    if kind == "write_read":
        fmt = [JSON, Pickle][n % 2]()
        part = LocalFilePartition(path=str(root / f"w{i}-{n}"), storage=LocalFile())
        view = View.from_annotation(int, mode="READWRITE")
        snap = arti.write(n, T.Int64(), fmt, part, view)
        return (int(snap.content_fingerprint), arti.read(T.Int64(), fmt, (snap,), view))

    @producer()
    def step(a: Annotated[int, Base]) -> Annotated[int, Base]:
        return a

    return (step._arti_type_key_, step(a=Base(storage=StringLiteral(value=str(n)))).out().type.model_dump_json())


def first_use(seed):
    """In a forked child: everything is first used by several threads at once."""
    rng = random.Random(seed)
    cold = not any(m.startswith(("arti.io.", "arti.views.")) for m in sys.modules)
    root = Path(core.tempfile.mkdtemp(prefix="verif-first-"))
    try:
        ops = first_ops(rng, root)
        specs = [make_spec(rng, f"u{i}", "g") for i in range(len(ops))]
        t = Threads(rng.getrandbits(32))
        if rng.random() < 0.5:
            t.focus, t.p = None, 0.02
        got = judge(t.run([lambda s=s, o=o: first_op(s, root, *o) for s, o in zip(specs, ops)]), "first use")
        for s, o, r in zip(specs, ops, got):
            shutil.rmtree(root / f"r{o[1]}", ignore_errors=True)
            want = first_op(s, root, *o)
            if r != want:
                raise Violation(f"first use by several threads: {o} gave {r!r}, alone {want!r}")
        return {"cold": cold, "ops": [o[0] for o in ops], "lines": t.events, "handovers": t.handovers, "trace": t.trace.hexdigest()}
    except Violation as e:
        return {"violation": str(e)}
    except Exception as e:
        import traceback

        return {"violation": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def zygote():
    """Fork a fresh child per request; the parent never uses a reader, writer or view."""
    for line in sys.stdin:
        seed = line.strip()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.alarm(100)
            res = first_use(seed)
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(res))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        print(data or json.dumps({"died": status}), flush=True)


ZYGOTE = None


def setup(ctx):
    global ZYGOTE
    import subprocess

    ZYGOTE = subprocess.Popen([sys.executable, "-c", "import c18; c18.zygote()"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)


def teardown(ctx):
    ZYGOTE.stdin.close()
    ZYGOTE.wait(30)


def first(ctx, rng):
    ZYGOTE.stdin.write(f"{rng.getrandbits(60)}\n")
    ZYGOTE.stdin.flush()
    line = ZYGOTE.stdout.readline()
    if not line:
        raise Inconclusive("the process that forks fresh processes is gone")
    res = json.loads(line)
    if "died" in res:
        raise Violation(f"first use by several threads: the process did not finish (status {res['died']})")
    if "violation" in res:
        raise Violation(res["violation"])
    ctx.check(True, "")
    ctx.n["runs_first"] += 1
    ctx.n["runs_first_cold"] += res["cold"]
    ctx.n["lines"] += res["lines"]
    ctx.n["handovers"] += res["handovers"]
    ctx.seen(("first", res["trace"]), {"first use": res["ops"]} if len(ctx.samples) < 4 else None)


def case(ctx, rng):
    rng.choice([pipelines, pipelines, closed, closed, history, history, first])(ctx, rng)
