"""C07: what is written is what is read back.

A model keeps every value written per (artifact, partition). After each write all other partitions are
re-read (non-interference); reads of any selection of partitions are compared, type-exactly and
recursively, with the concatenation of the selected partitions' rows.
"""
import copy
import datetime
import math
from typing import Annotated

from arti import Artifact, Fingerprint, Format, Graph, PartitionKey, Producer, Storage, StoragePartitions, View
from arti import io
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.partitions import DateField, Int8Field, Int16Field, Int32Field, Int64Field, NullField
from arti.storage.google.cloud.storage import GCSFile
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti import types as T
from arti.views import python as V

from core import Violation
from gcs import Emulator

PROP = "C07"
CASES = {"quick": 3000, "thorough": 30000}
SECONDS = {"quick": 100, "thorough": 1200}

EMU = None


def setup(ctx):
    global EMU
    EMU = Emulator()


def teardown(ctx):
    EMU.stop()


# ------------------------------------------------------------------ values
STRINGS = ["", "a", "é✓", "\u0000x", '"quoted"\\', "line\nbreak\r\n", "{x}", "null", "1", "\U0001f600", "\ud800", "a\udfff\ud83dz", "ÿ" * 40, "]", "# c", "x" * 2000]


def scalar(rng, k, fmt):
    if k == "Int64":
        return rng.choice([0, -1, 7, 2**53 + 1, 2**63 - 1, -(2**63), rng.getrandbits(60), rng.randrange(-99, 99)])
    if k == "Float64":
        return rng.choice([0.0, -0.0, 1.0, 0.1, 1e308, 5e-324, math.inf, -math.inf, rng.random() * 10 ** rng.randrange(-20, 20)])
    if k == "String":
        return rng.choice(STRINGS) if rng.random() < 0.6 else f"s{rng.getrandbits(40):x}"
    if k == "Boolean":
        return rng.random() < 0.5
    if k == "Date":
        return datetime.date(1, 1, 1) + datetime.timedelta(days=rng.randrange(3_600_000))
    if k == "Timestamp":
        return datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(microseconds=rng.randrange(-(10**15), 10**15))
    if k == "Null":
        return None
    raise AssertionError(k)


JSON_SCALARS = ["Int64", "Float64", "String", "Boolean", "Null"]
PICKLE_SCALARS = [*JSON_SCALARS, "Date", "Timestamp"]


def gen_type(rng, depth, fmt):
    k = rng.choice(["List", "Map", "Struct", "scalar", "scalar"]) if depth > 0 else "scalar"
    n = rng.random() < 0.25
    if k == "List":
        return (k, n, gen_type(rng, depth - 1, fmt))
    if k == "Map":
        return (k, n, "String" if fmt == "json" or rng.random() < 0.5 else rng.choice(["Int64", "Date", "Float64"]), gen_type(rng, depth - 1, fmt))
    if k == "Struct":
        return (k, n, tuple((f, gen_type(rng, depth - 1, fmt)) for f in rng.sample(["a", "b", "c c", "é"], rng.randint(1, 3))))
    return (rng.choice(JSON_SCALARS if fmt == "json" else PICKLE_SCALARS), n)


def build_type(t):
    k, n = t[0], t[1]
    if k == "List":
        return T.List(nullable=n, element=build_type(t[2]))
    if k == "Map":
        return T.Map(nullable=n, key=build_type((t[2], False)), value=build_type(t[3]))
    if k == "Struct":
        return T.Struct(nullable=n, fields={f.replace(" ", "_"): build_type(x) for f, x in t[2]})
    if k == "Timestamp":
        return T.Timestamp(nullable=n, precision="microsecond")
    return getattr(T, k)(nullable=n)


def gen_value(rng, t, fmt, top=False):
    k, n = t[0], t[1]
    if n and not top and rng.random() < 0.3:
        return None
    if k == "List":
        return [gen_value(rng, t[2], fmt) for _ in range(rng.choice([0, 1, 2, 3, 8]))]
    if k == "Map":
        return {scalar(rng, t[2], fmt): gen_value(rng, t[3], fmt) for _ in range(rng.choice([0, 1, 2, 4]))}
    if k == "Struct":
        return {f.replace(" ", "_"): gen_value(rng, x, fmt) for f, x in t[2]}
    return scalar(rng, k, fmt)


def same(a, b):
    """Equal values of equal types, recursively (and bit-exactly for floats)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and list(map(repr, a)) == list(map(repr, b)) and all(same(x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


def scribble(v):
    """Change every container in place: a value handed out belongs to whoever got it."""
    if isinstance(v, dict):
        for x in list(v.values()):
            scribble(x)
        v["scribbled"] = 1
    elif isinstance(v, list):
        for x in v:
            scribble(x)
        v.append("scribbled")


def equal(ctx, got, want, what, **kw):
    ctx.check(same(got, want), f"{what}: read {str(got)[:300]!r}, wrote {str(want)[:300]!r}", **kw)
    scribble(got)  # (invisible to anyone else: what was written is compared again later)


HINTS = {"Int64": int, "Float64": float, "String": str, "List": list, "Map": dict, "Struct": dict, "Collection": list}
ROOTS = ["Int64", "Float64", "String", "List", "Map", "Struct", "Null"]
KEYS = {
    "i8": (T.Int8, Int8Field, lambda r: r.randrange(-128, 128)),
    "i16": (T.Int16, Int16Field, lambda r: r.randrange(-3000, 3000)),
    "i32": (T.Int32, Int32Field, lambda r: r.randrange(-(2**31), 2**31)),
    "i64": (T.Int64, Int64Field, lambda r: r.randrange(-(2**63), 2**63)),
    "d": (T.Date, DateField, lambda r: datetime.date(1000, 1, 1) + datetime.timedelta(days=r.randrange(3_000_000))),
    "nul": (T.Null, NullField, lambda r: None),
}


class Slot:
    """One artifact and the model of what was written to it."""

    def __init__(self, rng, i, root, where):
        self.name = rng.choice(["", "ns.", "x.y."]) + f"art{i}"
        self.fmt = "json" if where == "literal" else rng.choice(["json", "pickle"])
        self.where = where
        self.keys = ()
        if rng.random() < 0.45:
            self.keys = tuple(rng.sample(list(KEYS), rng.choice([1, 1, 2, 3])))
            extra = [(f, gen_type(rng, 1, self.fmt)) for f in rng.sample(["v", "w"], rng.randint(1, 2))]
            self.row = extra
            self.type = T.Collection(element=T.Struct(fields={**{k: KEYS[k][0]() for k in self.keys}, **{f: build_type(t) for f, t in extra}}), partition_by=self.keys)
            self.rootk = "Collection"
        else:
            while True:
                t = gen_type(rng, 3, self.fmt)
                if t[0] in ROOTS:
                    break
            t = (t[0], False, *t[2:])
            self.t, self.type, self.rootk = t, build_type(t), t[0]
        self.produced = rng.random() < 0.6 or where == "literal"
        fp = "{input_fingerprint}/" if self.produced else ""
        tail = f"{{graph_name}}/{{names}}/{{partition_key_spec}}/{fp}{{name}}{{extension}}"
        self.storage = {"local": lambda: LocalFile(path=f"{root}/{tail}"), "gcs": lambda: GCSFile(bucket=rng.choice(["bkt", "other"]), path=f"{root.name}/{tail}"), "literal": lambda: StringLiteral()}[where]()
        self.other = None
        self.model: dict = {}  # (key, input fingerprint) -> (value, snapshot)

    def twin(self):
        """Another artifact whose locations only differ from this one's in the case of some letters."""
        o = copy.copy(self)
        head, _, leaf = self.name.rpartition(".")
        o.name = f"{head}.{leaf.swapcase()}" if head else leaf.swapcase()
        o.model, o.other = {}, self
        return o

    def value(self, rng):
        if self.keys:
            return lambda key: [{**key, **{f: gen_value(rng, t, self.fmt) for f, t in self.row}, "#": rng.getrandbits(50)} for _ in range(rng.choice([0, 1, 2, 5]))]
        return gen_value(rng, self.t, self.fmt, top=True)

    def new_key(self, rng):
        vals = {k: KEYS[k][2](rng) for k in self.keys}
        return PartitionKey({k: (KEYS[k][1](value=x) if k != "nul" else NullField()) for k, x in vals.items()}), vals


def view_for(slot, rng, mode):
    """A view through one of the documented routes: a hint, an annotated hint, or the class itself."""
    py = {"Int64": int, "Float64": float, "String": str, "List": list, "Map": dict, "Struct": dict, "Null": None, "Collection": list}[slot.rootk]
    cls = {int: V.Int, float: V.Float, str: V.Str, list: V.List, dict: V.Dict, None: V.Null}[py]
    how = rng.choice(["class", "annotated", "annotated"]) if py is not None else "class"
    if how == "class":
        return cls(mode=mode, artifact_class=Artifact, type=slot.type)
    return View.from_annotation(Annotated[py, slot.type], mode=mode)


def produced_by(root, type_, format_, storage):
    """An Artifact made by a Producer that never runs; the harness writes its partitions itself."""
    art = type("Made", (Artifact,), {"__module__": __name__, "__annotations__": {"type": T.Type, "format": Format, "storage": Storage}, "type": type_, "format": format_, "storage": storage})

    hint = Annotated[None, V.Null, art] if root == "Null" else Annotated[HINTS[root], art]

    class Never(Producer):
        src: Artifact

        @staticmethod
        def map(src: StoragePartitions):
            return {}

        @staticmethod
        def build(src: Annotated[int, T.Int64()]) -> hint:
            raise AssertionError

    return Never(src=Artifact(type=T.Int64(), format=JSON(), storage=StringLiteral(value="1"))).out()


def case(ctx, rng):
    root = ctx.tmpdir()
    backend = MemoryBackend()
    wheres = [rng.choice(["local", "local", "gcs", "literal"]) for _ in range(rng.choice([1, 2, 3]))]
    slots = [Slot(rng, i, root, w) for i, w in enumerate(wheres)]
    if rng.random() < 0.3:
        slots.append(slots[0].twin())
    arts = {}
    with Graph(name="g" + str(rng.randrange(9)), backend=backend) as g:
        for s in slots:
            fmt = JSON() if s.fmt == "json" else Pickle()
            if s.produced:  # only produced Artifacts keep an {input_fingerprint} part
                g.artifacts[s.name] = produced_by(s.rootk, s.type, fmt, s.storage)
            else:
                g.artifacts[s.name] = Artifact(type=s.type, format=fmt, storage=s.storage)
            arts[s.name] = g.artifacts[s.name]

    def read(s, snaps, view=None):
        art = arts[s.name]
        if not s.produced and rng.random() < 0.4 and s.rootk != "Null":
            hint = HINTS[s.rootk]
            return g.read(art, annotation=Annotated[hint, s.type] if rng.random() < 0.5 else hint, storage_partition_snapshots=snaps)
        return io.read(type_=art.type, format=art.format, storage_partition_snapshots=snaps, view=view or view_for(s, rng, rng.choice(["READ", "READWRITE"])))

    def write(s, value, key, ifp):
        art = arts[s.name]
        if not s.produced and rng.random() < 0.5 and value is not None:
            return g.write(value, artifact=art, partition_key=key)
        part = art.storage.generate_partition(input_fingerprint=ifp, partition_key=key)
        return io.write(value, type_=art.type, format=art.format, storage_partition=part, view=view_for(s, rng, rng.choice(["WRITE", "READWRITE"])))

    ops = 0
    for _ in range(rng.choice([3, 6, 10])):
        s = rng.choice(slots)
        if s.model and rng.random() < 0.3:
            (key, ifp), vals = rng.choice([(k, v[2]) for k, v in s.model.items()])
            if s.where == "literal":
                # A written literal partition can be written anew, but a partition holding a value cannot.
                with_value = s.model[(key, ifp)][1].storage_partition
                ctx.raises(ValueError, lambda: io.write(s.model[(key, ifp)][0], type_=arts[s.name].type, format=JSON(), storage_partition=with_value, view=view_for(s, rng, "WRITE")), "overwriting a literal")
        else:
            key, vals = s.new_key(rng) if s.keys else (PartitionKey(), {})
            ifp = Fingerprint.from_int(rng.getrandbits(62) - 2**61) if s.produced else None
            near = next((o for o in slots if o.other is s or s.other is o), None)
            if near is not None and near.model and rng.random() < 0.7:
                (key, ifp), vals = rng.choice([(k, v[2]) for k, v in near.model.items()])
                ctx.n["case_twins"] += 1
        value = s.value(rng)
        if s.keys:
            value = value({k: v for k, v in vals.items()} if s.fmt == "pickle" else {k: (v.isoformat() if k == "d" else v) for k, v in vals.items()})
        before = repr(value)
        snap = write(s, value, key, ifp)
        ops += 1
        ctx.check(repr(value) == before, "writing modified the value")
        ctx.check(snap.partition_key == key and snap.input_fingerprint == ifp, "the written partition has another key or fingerprint")
        s.model[(key, ifp)] = (copy.deepcopy(value), snap, vals)
        scribble(value)  # (what was written is unaffected)
        ctx.seen(("write", s.fmt, s.where, s.rootk, s.keys, s.produced, ops > 1, getattr(s, "t", None)), {"type": repr(s.type)[:200], "value": repr(value)[:200], "store": s.where, "format": s.fmt} if len(ctx.samples) < 3 else None)
        # everything written so far is unaffected
        for o in slots:
            for (k, f), (want, sn, _) in o.model.items():
                equal(ctx, read(o, (sn,)), want, f"{o.where}/{o.fmt}/{o.rootk}", key=k)
                ctx.n["reads"] += 1
        # selections of partitions
        for o in slots:
            entries = list(o.model.values())
            art = arts[o.name]
            if o.keys and entries:
                pick = rng.sample(entries, rng.randint(1, len(entries)))
                equal(ctx, read(o, tuple(e[1] for e in pick)), [r for e in pick for r in e[0]], f"several partitions of {o.where}/{o.fmt}")
                ctx.n["partition_selections"] += 1
                ctx.seen(("select", o.fmt, o.where, len(pick), len(entries), o.keys))
            elif len(entries) > 1:
                ctx.raises(ValueError, lambda: io.read(type_=art.type, format=art.format, storage_partition_snapshots=tuple(e[1] for e in entries), view=view_for(o, rng, "READ")), "several partitions into an unpartitioned type")
                ctx.n["multi_rejected"] += 1
            ctx.raises(FileNotFoundError, lambda: io.read(type_=art.type, format=art.format, storage_partition_snapshots=(), view=view_for(o, rng, "READ")), "reading no partitions")
            if not o.produced and o.where != "literal" and entries and o.rootk != "Null":
                # discovery-based read through the graph: every partition once and intact, in some order
                got = g.read(art, annotation=HINTS[o.rootk])
                if not o.keys:
                    equal(ctx, got, entries[0][0], "graph read")
                else:
                    blocks = [e[0] for e in entries if e[0]]
                    rest = list(got)
                    while rest:
                        b = next((b for b in blocks if same(rest[: len(b)], b)), None)
                        ctx.check(b is not None, "reading all partitions returned rows that are not one intact partition", got=got)
                        blocks.remove(b)
                        rest = rest[len(b):]
                    ctx.check(not blocks, "reading all partitions missed a partition", missing=blocks)
                    ctx.n["full_reads"] += 1
            elif not o.produced and not entries:
                ctx.raises(FileNotFoundError, lambda: g.read(art, view=view_for(o, rng, "READ")), "reading an artifact that was never written")
                ctx.n["missing_reads"] += 1
    ctx.rmdir(root)
