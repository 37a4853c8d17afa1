"""C15: reads and writes that do not fit an artifact are refused without side effects.

Around every refused access the monitors compare the whole observable state: every file and directory
below the scratch root (contents and modification times), every object in the emulated buckets (name,
generation, contents), every write call and the complete contents of the metadata backend (through a spying
backend whose connections count what the library writes), and the artifacts' own values. Valid accesses,
interleaved, must be accepted and change exactly their own partition.
"""
import datetime
import json
import urllib.parse
from collections.abc import Iterator, Sequence
from contextlib import contextmanager
from typing import Annotated, Any, ClassVar, get_args, get_origin

from pydantic import PrivateAttr

from arti import Artifact, Backend, BackendConnection, Fingerprint, Format, Graph, GraphSnapshot, InputFingerprints, PartitionKey, Storage, StoragePartition, View
from arti import register_reader, register_writer
from arti import types as T
from arti.types import Type
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.partitions import DateField, Int8Field, Int64Field
from arti.storage.local import LocalFile
from arti.types.python import python_type_system
from arti.views import python as V

import c07
from c07 import HINTS, Slot, produced_by, same
from core import Violation
from gcs import Emulator

PROP = "C15"
CASES = {"quick": 5000, "thorough": 20000}
SECONDS = {"quick": 100, "thorough": 1200}

EMU = None


def setup(ctx):
    global EMU
    EMU = Emulator()


def teardown(ctx):
    EMU.stop()


# ------------------------------------------------------------------ spying backend
class SpyConnection(BackendConnection):
    def __init__(self, inner, log):
        self.inner, self.log = inner, log

    def _write(self, name, args):
        self.log.append(name)
        return getattr(self.inner, name)(*args)

    def read_artifact_partitions(self, artifact, input_fingerprints=InputFingerprints()):
        return self.inner.read_artifact_partitions(artifact, input_fingerprints)

    def write_artifact_partitions(self, *a):
        return self._write("write_artifact_partitions", a)

    def read_graph(self, *a):
        return self.inner.read_graph(*a)

    def write_graph(self, *a):
        return self._write("write_graph", a)

    def read_snapshot(self, *a):
        return self.inner.read_snapshot(*a)

    def write_snapshot(self, *a):
        return self._write("write_snapshot", a)

    def read_snapshot_tag(self, *a):
        return self.inner.read_snapshot_tag(*a)

    def write_snapshot_tag(self, *a):
        return self._write("write_snapshot_tag", a)

    def read_snapshot_partitions(self, *a):
        return self.inner.read_snapshot_partitions(*a)

    def write_snapshot_partitions(self, *a):
        return self._write("write_snapshot_partitions", a)


class SpyBackend(Backend[SpyConnection]):
    _inner: MemoryBackend = PrivateAttr(default_factory=MemoryBackend)
    _log: list = PrivateAttr(default_factory=list)

    def __deepcopy__(self, memo=None):
        return self

    __copy__ = __deepcopy__

    @contextmanager
    def connect(self) -> Iterator[SpyConnection]:
        with self._inner.connect() as c:
            yield SpyConnection(c, self._log)


# ------------------------------------------------------------------ alien formats, storages, views
class AlienFormat(Format):
    type_system = python_type_system
    extension: str = ".alien"


class AlienPartition(StoragePartition):
    path: str

    def compute_content_fingerprint(self):
        return Fingerprint.from_string(open(self.path).read())


class AlienStorage(Storage[AlienPartition]):
    path: str = "x/{graph_name}/{names}/{partition_key_spec}/{input_fingerprint}/{name}{extension}"

    def discover_partitions(self, input_fingerprints=InputFingerprints()):
        return ()


class Thing:
    """A Python type that represents no declared type."""


class ThingView(View):  # a registered view, without any reader or writer
    python_type = Thing
    type_system = python_type_system


class ReadableThing:
    pass


class ReadableView(View):  # what can only be read
    python_type = ReadableThing
    type_system = python_type_system


class WritableThing:
    pass


class WritableView(View):  # what can only be written
    python_type = WritableThing
    type_system = python_type_system


@register_reader
def read_thing(type_: Type, format: Format, storage_partitions: Sequence[StoragePartition], view: ReadableView) -> Any:
    return ReadableThing()


@register_writer
def write_thing(data: WritableThing, type_: Type, format: Format, storage_partition: StoragePartition, view: WritableView) -> None:
    HALF_WRITES.append(view.mode)


HALF_WRITES = []


class OtherArtifact(Artifact):
    pass


# ------------------------------------------------------------------ state
def objects(root):
    out = {}
    for bucket in ("bkt", "other"):
        token = None
        r = EMU.http.get(f"{EMU.url}/storage/v1/b/{bucket}/o?prefix={urllib.parse.quote(root.name, safe='')}")
        for o in r.json().get("items", []):
            out[(bucket, o["name"])] = (o.get("md5Hash"), o.get("generation"), o.get("updated"), o.get("size"))
    return out


def files(root):
    out = {}
    for p in sorted(root.rglob("*")):
        st = p.lstat()
        out[str(p)] = ("dir", 0) if p.is_dir() else (p.read_bytes(), st.st_mtime_ns, st.st_ino)
    return out


def metadata(backend, graph, names, snaps):
    inner = backend._inner
    with inner.connect() as c:
        out = {"log": list(backend._log)}
        for n in names:
            try:
                out["known", n] = frozenset(c.read_artifact_partitions(graph.artifacts[n]))
            except ValueError:  # a partitioned literal the backend has no partitions of yet
                out["known", n] = frozenset()
            for s in snaps:
                out["snap", s.id, n] = frozenset(c.read_snapshot_partitions(s, n, graph.artifacts[n]))
        return out


WRONG_HINTS = {
    "Int64": [float, str, list, dict, datetime.date, datetime.datetime, list[int], dict[str, int], Thing],
    "Float64": [int, str, list, dict, datetime.date, list[float], Thing],
    "String": [int, float, list, dict, datetime.datetime, list[str], Thing],
    "List": [int, float, str, dict, datetime.date, dict[str, int], Thing, list[Thing]],
    "Map": [int, float, str, list, datetime.date, list[int], Thing, dict[Thing, int]],
    "Struct": [int, float, str, list, list[int], Thing],
    "Null": [int, float, str, list, dict, datetime.date, Thing],
    "Collection": [int, float, str, dict, datetime.date, Thing, list[int], list[Thing]],
}
WRONG_VALUES = {
    "Int64": [1.5, "5", [5], {"a": 5}, datetime.date(2020, 1, 2), Thing(), b"5", (5,)],
    "Float64": [1, "1.5", [1.5], {}, datetime.date(2020, 1, 2), Thing()],
    "String": [1, 1.5, ["a"], {"a": "a"}, datetime.datetime(2020, 1, 2), Thing(), b"a"],
    "List": [1, 1.5, "abc", {"a": 1}, datetime.date(2020, 1, 2), Thing(), (1, 2), {1}],
    "Map": [1, 1.5, "abc", [1], datetime.date(2020, 1, 2), Thing()],
    "Struct": [1, 1.5, "abc", [1], Thing()],
    "Null": [1, 1.5, "abc", [1], {}, Thing()],
    "Collection": [1, 1.5, "abc", {"a": 1}, Thing(), (1, 2)],
}


class SubInt(int): ...


class SubFloat(float): ...


class SubStr(str): ...


LEAVES = {int: [float, str, bool, SubInt], float: [int, str, SubFloat, bool], str: [int, bytes, SubStr], bool: [str, float], bytes: [str, int], datetime.date: [datetime.datetime, int, str], datetime.datetime: [int, str]}


def near_miss(rng, hint):
    """The hint with one of its parts replaced by one that cannot represent it (a subclass, often), or None."""
    origin, args = get_origin(hint), get_args(hint)
    if hint in LEAVES:
        return rng.choice(LEAVES[hint])
    if origin in (list, set, dict) and args:
        i = rng.randrange(len(args))
        new = near_miss(rng, args[i])
        if new is None:
            return None
        return origin[tuple(new if j == i else a for j, a in enumerate(args))]
    return None


VIEWS = {"Int64": V.Int, "Float64": V.Float, "String": V.Str, "List": V.List, "Map": V.Dict, "Struct": V.Dict, "Null": V.Null, "Collection": V.List}
OTHER_TYPES = {"Int64": T.Float64(), "Float64": T.Int64(), "String": T.Int64(), "List": T.List(element=T.Date()), "Map": T.Map(key=T.Date(), value=T.Int8()), "Struct": T.Struct(fields={"zz": T.Int8()}), "Null": T.Int64(), "Collection": T.Collection(element=T.Struct(fields={"zz": T.Int8()}))}


class Odd(Slot):
    """A slot whose format/storage combination has no handler."""

    def __init__(self, rng, i, root):
        super().__init__(rng, i, root, "local")
        self.odd = rng.choice(["format", "storage", "pickle_literal"])
        self.name = f"odd{i}"
        self.fmt = "pickle"
        if self.odd == "storage":
            fp = "{input_fingerprint}/" if self.produced else ""
            self.storage = AlienStorage(path=f"{root}/{{names}}/{{partition_key_spec}}/{fp}{{name}}{{extension}}")
        elif self.odd == "pickle_literal":
            from arti.storage.literal import StringLiteral

            self.storage = StringLiteral()

    def format(self):
        return AlienFormat() if self.odd == "format" else Pickle()


def other_type(rng, s):
    t = rng.choice([OTHER_TYPES[s.rootk], s.type.model_copy(update={"nullable": not s.type.nullable})])
    return t if t != s.type else T.Date()


def case(ctx, rng):
    root = ctx.tmpdir()
    backend = SpyBackend()
    wheres = [rng.choice(["local", "local", "gcs", "literal"]) if rng.random() < 0.5 else "local" for _ in range(rng.choice([1, 2, 3]))]
    slots = [Slot(rng, i, root, w) for i, w in enumerate(wheres)]
    odd = [Odd(rng, i, root) for i in range(rng.choice([0, 1, 1]))]
    for o in odd:
        o.produced = False  # a producer's output must have a writer, so only raw artifacts can be odd
        if o.odd == "pickle_literal":
            o.keys = o.keys
    gname = "g" + str(rng.randrange(9))
    inner = {}
    arts = {}
    with Graph(name=gname, backend=backend) as g:
        for s in slots:
            fmt = JSON() if s.fmt == "json" else Pickle()
            if s.produced:
                inner[s.name] = produced_by(s.rootk, s.type, fmt, s.storage)
            else:
                inner[s.name] = Artifact(type=s.type, format=fmt, storage=s.storage)
            g.artifacts[s.name] = inner[s.name]
        for o in odd:
            g.artifacts[o.name] = Artifact(type=o.type, format=o.format(), storage=o.storage)
        if rng.random() < 0.3:  # nothing can be read or written while the graph is still being defined
            s = rng.choice(slots)
            for what, fn in [
                ("read", lambda: g.read(g.artifacts[s.name], view=VIEWS[s.rootk](mode="READ", type=s.type))),
                ("write", lambda: g.write(0, artifact=g.artifacts[s.name])),
                ("snapshot", lambda: g.snapshot()),
                ("build", lambda: g.build()),
            ]:
                ctx.raises(Exception, fn, f"{what} while the graph is being defined")
            ctx.check(not files(root) and not backend._log, "an access to an open graph had an effect")
            ctx.n["open_graph"] += 1
    for s in (*slots, *odd):
        arts[s.name] = g.artifacts[s.name]
    with Graph(name=gname + "other", backend=backend) as g2:
        g2.artifacts["art0"] = Artifact(type=T.Int64(), format=JSON(), storage=LocalFile.rooted_at(root / "g2"))
    names = [s.name for s in slots]
    snaps: list[GraphSnapshot] = []
    models = {s.name: {} for s in slots}

    def ifp():
        return Fingerprint.from_int(rng.getrandbits(62) - 2**61)

    def good_args(s):
        key, vals = s.new_key(rng) if s.keys else (PartitionKey(), {})
        return key, (ifp() if s.produced else None), vals

    def value_for(s, vals):
        v = s.value(rng)
        return v({k: v if s.fmt == "pickle" else (v.isoformat() if k == "d" else v) for k, v in vals.items()}) if s.keys else v

    def state():
        return {"files": files(root), "objects": objects(root) if any(s.where == "gcs" for s in slots) else {}, "meta": metadata(backend, g, names, snaps), "arts": repr(g.artifacts), "status": [a.fingerprint for a in arts.values()]}

    def refused(what, fn, **detail):
        before = state()
        try:
            r = fn()
        except Violation:
            raise
        except Exception as e:
            err = e
        else:
            raise Violation(f"{what} was accepted, returning {str(r)[:200]!r}: {detail!r}")
        after = state()
        for part in before:
            ctx.check(before[part] == after[part], f"{what} was refused ({type(err).__name__}: {str(err)[:120]}) but changed the {part}", detail=detail, diff=diff(before[part], after[part]))
        ctx.n[f"refused_{what.replace(' ', '_')}"] += 1

    def diff(a, b):
        if isinstance(a, dict):
            return {k: (str(a.get(k))[:100], str(b.get(k))[:100]) for k in {*a, *b} if a.get(k) != b.get(k)}
        return None

    def py_view(s, mode="READ", **kw):
        return VIEWS[s.rootk](**{"mode": mode, "artifact_class": Artifact, "type": s.type, **kw})

    def write_ok(s):
        key, f, vals = good_args(s)
        value = value_for(s, vals)
        before = state()
        kw = dict(artifact=arts[s.name], partition_key=key, input_fingerprint=f)
        if rng.random() < 0.5 or value is None:
            kw["view"] = py_view(s, rng.choice(["WRITE", "READWRITE"]))
        via = None
        if s.produced and snaps and rng.random() < 0.5:
            via = rng.choice(snaps)
        snap = via.write(value, **kw) if via else g.write(value, **kw)
        models[s.name][(key, f)] = (value, snap)
        after = state()
        new = [p for p in after["files"] if after["files"][p] != before["files"].get(p) and after["files"][p][0] != "dir"]
        objs = [p for p in after["objects"] if after["objects"][p] != before["objects"].get(p)]
        ctx.check(len(new) <= (s.where == "local") and len(objs) <= (s.where == "gcs"), "an accepted write changed other files or objects", files=new, objects=objs)
        ctx.check(not set(before["files"]) - set(after["files"]) and not set(before["objects"]) - set(after["objects"]), "an accepted write removed something")
        for k, v in after["meta"].items():
            if k == "log":
                continue
            gained, lost = v - before["meta"][k], before["meta"][k] - v
            own = k == ("known", s.name) or (via is not None and k == ("snap", via.id, s.name))
            ctx.check(not lost, "an accepted write lost a recorded partition", where=k)
            ctx.check(gained <= ({snap} if own else set()), "an accepted write recorded something else", where=k, gained=gained)
            if own:
                ctx.check(snap in v, "an accepted write was not recorded", where=k)
        # and it is readable
        got = g.read(arts[s.name], view=py_view(s, rng.choice(["READ", "READWRITE"])), storage_partition_snapshots=(snap,))
        ctx.check(same(got, value), "an accepted write reads back differently", got=got, want=value)
        if s.rootk != "Null":
            hint = rng.choice([HINTS[s.rootk], Annotated[HINTS[s.rootk], s.type], Annotated[HINTS[s.rootk], "note"]])
            got = g.read(arts[s.name], annotation=hint, storage_partition_snapshots=(snap,))
            ctx.check(same(got, value), "an accepted write reads back differently by annotation", got=got, want=value)
        ctx.n["accepted"] += 1
        ctx.seen(("ok", s.where, s.fmt, s.rootk, s.produced, bool(s.keys), via is not None))

    def try_snapshot():
        if not odd and all(models[s.name] or s.produced for s in slots) and not any(s.where == "literal" and not s.produced for s in slots):
            snaps.append(g.snapshot())

    def reads_via(s):
        yield "graph", g.read
        for sn in snaps:
            yield "snapshot", sn.read

    for _ in range(rng.choice([2, 4, 7])):
        s = rng.choice(slots)
        if rng.random() < 0.5 or not models[s.name]:
            write_ok(s)
            if not snaps or rng.random() < 0.2:
                try_snapshot()
        s = rng.choice(slots)
        art = arts[s.name]
        via, read = rng.choice(list(reads_via(s)))
        key, f, vals = good_args(s)
        value = value_for(s, vals)
        good = dict(artifact=art, partition_key=key, input_fingerprint=f)
        sig = (s.where, s.fmt, s.rootk, s.produced, bool(s.keys), via)
        wview = py_view(s, rng.choice(["WRITE", "READWRITE"]))
        acts = ["read_hint", "read_hint", "read_args", "read_foreign", "read_view", "write_value", "write_value", "write_view", "write_foreign", "write_key", "write_key", "write_ifp"]
        if not s.produced and snaps:
            acts += ["write_raw_snap"] * 2
        if odd:
            acts += ["odd"] * 3
        act = rng.choice(acts)
        snap_kw = {}
        if models[s.name] and rng.random() < 0.4:
            snap_kw = {"storage_partition_snapshots": (rng.choice(list(models[s.name].values()))[1],)}
        if act == "read_hint":
            hint = rng.choice(WRONG_HINTS[s.rootk])
            if s.rootk in ("List", "Map") and rng.random() < 0.7:
                exact = python_type_system.to_system(s.type, hints={})
                if (near := near_miss(rng, exact)) is not None:
                    hint = near
                    ctx.n["near_miss"] += 1
                    if snap_kw and "TypedDict" not in str(s.type) and "Struct" not in str(s.type):
                        read(art, annotation=exact, **snap_kw)  # the exact hint is accepted
            if rng.random() < 0.3:
                hint = Annotated[hint, "note"]
            refused("reading by a wrong hint", lambda: read(art, annotation=hint, **snap_kw), hint=hint, type=s.type, via=via)
            # an explicit Type in the hint does not help, nor does another view
            if rng.random() < 0.3:
                refused("reading by a wrong annotated hint", lambda: read(art, annotation=Annotated[hint, other_type(rng, s)], **snap_kw), hint=hint, type=s.type)
            ctx.seen((act, *sig, str(hint)))
        elif act == "read_args":
            if rng.random() < 0.5:
                refused("reading without a hint or view", lambda: read(art, **snap_kw))
            else:
                refused("reading with a hint and a view", lambda: read(art, annotation=HINTS.get(s.rootk, int), view=py_view(s), **snap_kw))
            ctx.seen((act, *sig))
        elif act in ("read_foreign", "write_foreign"):
            kind = rng.choice(["fresh", "other graph", "other type", "other class", "other format"])
            fmt = art.format
            foreign = {
                "fresh": lambda: Artifact(type=s.type, format=fmt, storage=LocalFile.rooted_at(root / "elsewhere")),
                "other graph": lambda: g2.artifacts["art0"],
                "other type": lambda: Artifact(type=other_type(rng, s), format=Pickle(), storage=LocalFile(path=f"{root}/x")),
                "other class": lambda: OtherArtifact(type=s.type, format=fmt, storage=LocalFile(path=f"{root}/x/{{partition_key_spec}}/y")),
                "other format": lambda: art.model_copy(update={"format": AlienFormat()}),
            }[kind]()
            if act == "read_foreign":
                refused("reading a foreign artifact", lambda: read(foreign, **rng.choice([{"annotation": HINTS.get(s.rootk, int)}, {"view": py_view(s)}]), **snap_kw), kind=kind)
            else:
                w = snaps[-1].write if snaps and rng.random() < 0.5 else g.write
                refused("writing a foreign artifact", lambda: w(value, artifact=foreign, partition_key=key, input_fingerprint=f, view=wview), kind=kind)
            ctx.seen((act, *sig, kind))
        elif act in ("read_view", "write_view"):
            mode = rng.choice(["READWRITE", "READ" if act == "read_view" else "WRITE"])
            kind = rng.choice(["type", "class", "handler", "half", "half"])
            view = {
                "type": lambda: py_view(s, mode, type=other_type(rng, s)),
                "class": lambda: py_view(s, mode, artifact_class=OtherArtifact),
                "handler": lambda: ThingView(mode=mode, artifact_class=Artifact, type=s.type),
                # Both ways need both; either way needs its own.
                "half": lambda: (rng.choice([ReadableView, WritableView]) if mode == "READWRITE" else WritableView if mode == "READ" else ReadableView)(mode=mode, artifact_class=Artifact, type=s.type),
            }[kind]()
            if act == "read_view":
                refused("reading through a wrong view", lambda: read(art, view=view, **snap_kw), kind=kind, type=s.type)
            else:
                half = {ReadableView: ReadableThing, WritableView: WritableThing}.get(type(view))
                refused("writing through a wrong view", lambda: g.write(half() if half else value, **good, view=view), kind=kind)
                ctx.eq(HALF_WRITES, [], "writers of a refused view that ran")
            if kind == "half":
                ReadableView(mode="READ", artifact_class=Artifact, type=s.type).check_artifact_compatibility(art)
                WritableView(mode="WRITE", artifact_class=Artifact, type=s.type).check_artifact_compatibility(art)
                ctx.n["half_views"] += 1
            ctx.seen((act, *sig, kind, mode))
        elif act == "write_value":
            wrong = rng.choice(WRONG_VALUES[s.rootk])
            kw = {"view": wview} if rng.random() < 0.5 else {}
            w = snaps[-1].write if snaps and s.produced and rng.random() < 0.5 else g.write
            refused("writing a wrong value", lambda: w(wrong, **good, **kw), value=wrong, type=s.type)
            ctx.seen((act, *sig, str(type(wrong)), bool(kw)))
        elif act == "write_key":
            bad = dict(good)
            extra = {"zz": Int64Field(value=3)}
            if s.keys:
                kind = rng.choice(["missing", "missing one", "superfluous", "other name", "other type"])
                k0 = rng.choice(s.keys)
                bad["partition_key"] = {
                    "missing": lambda: PartitionKey(),
                    "missing one": lambda: PartitionKey({k: v for k, v in key.items() if k != k0}),
                    "superfluous": lambda: PartitionKey({**key, **extra}),
                    "other name": lambda: PartitionKey({**{k: v for k, v in key.items() if k != k0}, "zz": key[k0]}),
                    "other type": lambda: PartitionKey({**key, k0: DateField(value=datetime.date(2020, 1, 1)) if k0 != "d" else Int8Field(value=1)}),
                }[kind]()
            else:
                kind = "superfluous"
                bad["partition_key"] = PartitionKey(extra)
            w = snaps[-1].write if snaps and s.produced and rng.random() < 0.5 else g.write
            refused("writing with a wrong partition key", lambda: w(value, **bad, view=wview), kind=kind, key=bad["partition_key"])
            ctx.n[f"key_{kind.replace(' ', '_')}"] += 1
            ctx.seen((act, *sig, kind))
        elif act == "write_ifp":
            bad = {**good, "input_fingerprint": None if s.produced else ifp()}
            w = snaps[-1].write if snaps and s.produced and rng.random() < 0.5 else g.write
            refused("writing with a wrong input fingerprint", lambda: w(value, **bad, view=wview), produced=s.produced)
            ctx.seen((act, *sig))
        elif act == "write_raw_snap":
            refused("writing to a raw artifact through a snapshot", lambda: rng.choice(snaps).write(value, artifact=art, partition_key=key, **({"view": wview} if rng.random() < 0.5 or value is None else {})))
            refused("writing to a raw artifact through a snapshot", lambda: g.write(value, artifact=art, partition_key=key, view=wview, snapshot=snaps[-1]))
            ctx.seen((act, *sig))
        elif act == "odd":
            o = rng.choice(odd)
            oart = arts[o.name]
            okey, _, ovals = good_args(o)
            ovalue = value_for(o, ovals)
            how = rng.choice(["annotation", "view"]) if o.rootk != "Null" else "view"
            kw = {"annotation": HINTS[o.rootk]} if how == "annotation" else {"view": py_view(o)}
            refused(f"reading without a handler ({o.odd})", lambda: g.read(oart, **kw))
            kw = {"view": py_view(o, "WRITE")} if ovalue is None or rng.random() < 0.5 else {}
            refused(f"writing without a handler ({o.odd})", lambda: g.write(ovalue, artifact=oart, partition_key=okey, **kw))
            ctx.seen((act, o.odd, o.rootk, bool(o.keys), how))
    ctx.rmdir(root)
