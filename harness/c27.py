"""Storages and formats written by users, under the partitioned pipeline simulator (`c17.World`).

Each case defines storages with their own fields, separators and templates, whose partitions may carry a version that
the writer fills in. Where each partition has to be is computed here from the template, and compared.
"""

from __future__ import annotations

import datetime
import json
import pickle
from collections.abc import Sequence
from typing import Any, ClassVar

import c17
from arti import types as T
from arti import Fingerprint, Format, InputFingerprints, PartitionKey, Storage, StoragePartition, Type, register_reader, register_writer
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.internal.mappings import frozendict
from arti.partitions import PartitionField, field_component
from arti.types import is_partitioned
from arti.types.python import python_type_system
from arti.views.python import PythonBuiltin
from core import Violation

PROP = "C27"
CASES = {"quick": 900, "thorough": 12000}
SECONDS = {"quick": 90, "thorough": 1200}

DATA: dict = {}  # place -> {"now": tag, tag: bytes}
INDEX: dict = {}  # what the store lists for one storage: {(partition key, input fingerprint), ...}


class WordField(PartitionField):
    """Keys of a type the library has none for."""

    default_components: ClassVar[frozendict[str, str]] = frozendict(value="value")
    matching_type = T.String
    value: str

    @classmethod
    def from_components(cls, **components: str) -> PartitionField:
        return cls(value=components["value"])


class HourField(PartitionField):
    """Keys with components of their own."""

    default_components: ClassVar[frozendict[str, str]] = frozendict(day="day", H="H:03")
    matching_type = T.Timestamp
    value: datetime.datetime

    @field_component
    def day(self) -> str:
        return self.value.date().isoformat()

    @field_component
    def H(self) -> int:
        return self.value.hour

    @classmethod
    def from_components(cls, **components: str) -> PartitionField:
        return cls(value=datetime.datetime.fromisoformat(components["day"]) + datetime.timedelta(hours=int(components["H"])))


def setup(ctx):
    c17.setup(ctx)
    c17.KINDS.update({"w": (T.String, WordField), "h": (lambda: T.Timestamp(precision="second"), HourField)})
    c17.KEY_VALUES.update({
        "w": lambda rng: rng.choice(["a", "A", "b c", "x.y", "é", "a_b", "-1", "0", "None", "01", "a=b", "100%"]),
        "h": lambda rng: datetime.datetime(2020, 1, 1) + datetime.timedelta(hours=rng.randrange(60)),
    })


def teardown(ctx):
    c17.teardown(ctx)


# ------------------------------------------------------------------ formats
class Note(Format):
    """A format of its own."""

    type_system = python_type_system
    extension: str = ".note"


class Bare(Format):
    """A format without an extension."""

    type_system = python_type_system


class CompactJSON(JSON):
    """A special case of a known format: whatever handles the latter handles this."""

    extension: str = ".min.json"


def note_dump(x) -> bytes:
    return b"note:" + json.dumps(x).encode()


DUMPS = {"note": note_dump, "bare": note_dump, "compact": lambda x: json.dumps(x).encode()}
FORMATS = {"note": Note, "bare": Bare, "compact": CompactJSON, "json": JSON, "pickle": Pickle}


def decode(format, data: bytes):
    if isinstance(format, Note | Bare):
        if not data.startswith(b"note:"):
            raise ValueError("not a note")
        return json.loads(data.removeprefix(b"note:"))
    return json.loads(data) if isinstance(format, JSON) else pickle.loads(data)


def encode(format, x) -> bytes:
    return note_dump(x) if isinstance(format, Note | Bare) else json.dumps(x).encode() if isinstance(format, JSON) else pickle.dumps(x)


# ------------------------------------------------------------------ storages
def tag_of(data: bytes) -> int:
    return int(c17.digest(data), 16)


class ShelfPartition(StoragePartition):
    """The base of all partitions here; which fields make up the place is up to the subclass."""

    places: ClassVar[tuple[str, ...]] = ()

    @property
    def place(self):
        return (type(self).__name__, *(getattr(self, f) for f in self.places))

    @property
    def wanted(self):
        """The tag of the data to use: what was recorded, else what is there now."""
        entry = DATA.get(self.place)
        if entry is None:
            raise FileNotFoundError(f"nothing at {self.place}")
        return getattr(self, "etag", 0) or entry["now"]

    def compute_content_fingerprint(self):
        return Fingerprint.from_string(str(self.wanted))


def listing(storage):
    return INDEX.setdefault((type(storage).__name__, *(getattr(storage, f) for f in storage.storage_partition_type.places)), set())


def store(partition, data: bytes) -> int:
    tag = tag_of(data)
    entry = DATA.setdefault(partition.place, {})
    entry[tag], entry["now"] = data, tag
    listing(partition.storage).add((partition.partition_key, partition.input_fingerprint))
    return tag


def discover(self, input_fingerprints=InputFingerprints()):
    found = []
    for key, fp in sorted(listing(self), key=repr):
        if input_fingerprints.get(key) != fp:
            continue
        part = self.generate_partition(partition_key=key, input_fingerprint=fp)
        if (entry := DATA.get(part.place)) is None:
            continue
        if "etag" in type(part).model_fields:
            part = part.model_copy(update={"etag": entry["now"]})
        found.append(part.snapshot())
    return tuple(found)


def read_parts(type_, format, partitions):
    parts = [decode(format, DATA[p.place][p.wanted]) for p in partitions]
    if is_partitioned(type_):
        return [row for p in parts for row in p]
    (part,) = parts
    return part


@register_reader
def read_note_shelf(type_: Type, format: Note, storage_partitions: Sequence[ShelfPartition], view: PythonBuiltin) -> Any:
    return read_parts(type_, format, storage_partitions)


@register_reader
def read_bare_shelf(type_: Type, format: Bare, storage_partitions: Sequence[ShelfPartition], view: PythonBuiltin) -> Any:
    return read_parts(type_, format, storage_partitions)


@register_reader
def read_json_shelf(type_: Type, format: JSON, storage_partitions: Sequence[ShelfPartition], view: PythonBuiltin) -> Any:
    return read_parts(type_, format, storage_partitions)


@register_reader
def read_pickle_shelf(type_: Type, format: Pickle, storage_partitions: Sequence[ShelfPartition], view: PythonBuiltin) -> Any:
    return read_parts(type_, format, storage_partitions)


def write_part(data, format, partition):
    raw = encode(format, data)
    tag = store(partition, raw)
    return partition.model_copy(update={"etag": tag}) if "etag" in type(partition).model_fields else partition if tag % 2 else None


@register_writer
def write_note_shelf(data: Any, type_: Type, format: Note, storage_partition: ShelfPartition, view: PythonBuiltin) -> ShelfPartition:
    return write_part(data, format, storage_partition)


@register_writer
def write_bare_shelf(data: Any, type_: Type, format: Bare, storage_partition: ShelfPartition, view: PythonBuiltin) -> ShelfPartition:
    return write_part(data, format, storage_partition)


@register_writer
def write_json_shelf(data: Any, type_: Type, format: JSON, storage_partition: ShelfPartition, view: PythonBuiltin) -> ShelfPartition:
    return write_part(data, format, storage_partition)


@register_writer
def write_pickle_shelf(data: Any, type_: Type, format: Pickle, storage_partition: ShelfPartition, view: PythonBuiltin) -> ShelfPartition:
    return write_part(data, format, storage_partition)


class Shape:
    """A random storage class, and what its fields must come out as."""

    def __init__(self, rng, n):
        self.rng = rng
        self.seg, self.kv, self.comp = rng.choice(["/", "/", ":", "::", "|", "; ", "__", "~"]), rng.choice(["=", "=", ":=", "-", "@", "."]), rng.choice(["_", "_", "-", ".", "#"])
        if self.kv.startswith(self.seg):
            self.seg = "/"
        self.default_seps = rng.random() < 0.2
        if self.default_seps:
            self.seg, self.kv, self.comp = "/", "=", "_"
        k = rng.choice([1, 1, 2, 2, 3])
        self.fields = rng.sample(["path", "bucket", "table", "slot", "prefix", "id", "where_"], k)
        # Everything that tells partitions apart is in some field (maybe in several); other parts are optional.
        parts: list[list] = [[] for _ in self.fields]
        need = ["graph_name", "names", "partition_key_spec", "input_fingerprint"]
        for ph in need + [x for x in ("path_tags", "path_tags", "name", "names", "graph_name", "partition_key_spec", "input_fingerprint") if rng.random() < 0.4]:
            rng.choice(parts).append(("ph", ph))
        for p in parts:
            if rng.random() < 0.5:
                p.append(("lit", rng.choice(["v1", "data", "x.y", "é", "A B", "100%"])))
            rng.shuffle(p)
            if rng.random() < 0.5:
                p.append(("file", None))
            if all(kind == "ph" and v in ("partition_key_spec", "input_fingerprint", "path_tags") for kind, v in p):
                p.insert(rng.randrange(len(p) + 1), ("lit", "all"))
        self.parts = dict(zip(self.fields, parts))
        self.etag = rng.random() < 0.5
        self.extra = rng.choice([{}, {}, {"retries": (int, 3)}, {"region": (str | None, None)}, {"flags": (tuple[int, ...], (1, 2))}])
        extra_ann = {name: t for name, (t, _) in self.extra.items()}
        if self.etag:
            extra_ann["etag"] = int
        ann = {**dict.fromkeys(self.fields, str), **extra_ann}
        order = list(ann)
        rng.shuffle(order)
        ann = {f: ann[f] for f in order}
        defaults = {f: self.template(f) for f in self.fields} | {name: d for name, (_, d) in self.extra.items()} | ({"etag": 0} if self.etag else {})
        self.partition_class = type(f"Shelf{n}Partition", (ShelfPartition,), {"__module__": __name__, "__annotations__": {**ann, "places": ClassVar[tuple[str, ...]]}, "places": tuple(self.fields), **{f: d for f, d in defaults.items() if f not in self.fields}})
        seps = {} if self.default_seps else {"segment_sep": self.seg, "key_value_sep": self.kv, "partition_name_component_sep": self.comp}
        self.explicit = rng.random() < 0.4  # templates given to the instance instead
        body = {"__module__": __name__, "__annotations__": {**ann, **dict.fromkeys(seps, ClassVar[str])}, "discover_partitions": discover, **seps}
        body |= {f: ("{name}" if self.explicit and f in self.fields else d) for f, d in defaults.items()}
        self.cls = type(f"Shelf{n}", (Storage[self.partition_class],), body)
        self.kwargs = {f: self.template(f) for f in self.fields} if self.explicit else {}
        self.extra_values = {name: d for name, (_, d) in self.extra.items()}
        if self.extra and rng.random() < 0.5:
            self.kwargs |= (changed := {"retries": 7} if "retries" in self.extra else {"region": "eu {x}"} if False else {"flags": (4,)} if "flags" in self.extra else {})
            self.extra_values |= changed

    def template(self, field):
        return self.seg.join("{name}{extension}" if kind == "file" else "{" + v + "}" if kind == "ph" else v for kind, v in self.parts[field])

    def make(self):
        return self.cls(**self.kwargs)

    def expected(self, field, *, graph, tags, name, key, kinds, fp, extension):
        """The value of a partition's field."""
        comps = []
        for f, kind in kinds:
            v = key[f]
            each = {"day": v.date().isoformat(), "H": f"{v.hour:03}"} if isinstance(v, datetime.datetime) else {"Y": f"{v.year}", "m": f"{v.month:02}", "d": f"{v.day:02}"} if isinstance(v, datetime.date) else {"value": str(v)}
            comps += [f"{f}{self.comp}{c}{self.kv}{x}" for c, x in each.items()]
        values = {
            "graph_name": graph,
            "path_tags": self.seg.join(f"{k}{self.kv}{v}" for k, v in tags.items()),
            "names": self.seg.join(name.split(".")),
            "name": name.split(".")[-1],
            "partition_key_spec": self.seg.join(comps),
            "input_fingerprint": "" if fp is None else str(fp),
        }
        segments = [values["name"] + extension if kind == "file" else values[v] if kind == "ph" else v for kind, v in self.parts[field]]
        return self.seg.join(s for s in segments if s)


COUNT = 0


class World(c17.World):
    def __init__(self, ctx, rng):
        global COUNT
        COUNT += 1
        self.shapes = {f"shelf{i}": Shape(rng, f"{COUNT}x{i}") for i in range(rng.choice([1, 1, 2]))}
        c17.EXTRA_STORAGES.update({w: s.make for w, s in self.shapes.items()})
        c17.EXTRA_FORMATS.update(FORMATS)
        c17.EXTRA_DUMPS.update(DUMPS)
        super().__init__(ctx, rng)
        self.path_tags = rng.choice([{}, {}, {"env": "prod"}, {"a": "1", "b": "2"}])

    def store(self, produced):
        rng = self.rng
        if rng.random() < 0.75:
            return rng.choice(list(self.shapes)), rng.choice(["note", "bare", "compact", "json", "pickle"])
        where, fmt = super().store(produced)
        return where, ("compact" if fmt == "json" and where != "literal" and rng.random() < 0.5 else fmt)

    def overwrite(self, where, part, data):
        if where in self.shapes:
            store(part, data)
        else:
            super().overwrite(where, part, data)

    def place(self, part):
        return part.place if isinstance(part, ShelfPartition) else super().place(part)

    def erase(self, where, place):
        if where in self.shapes:
            DATA.pop(place, None)
        else:
            super().erase(where, place)

    def check_places(self, snap):
        """Every partition in the snapshot is where its storage's template says."""
        ctx = self.ctx
        used: dict = {}
        for name, node in self.nodes.items():
            art = self.g.artifacts[name]
            for p in self.parts(snap, node):
                part = p.storage_partition
                if node.where not in self.shapes:
                    continue
                shape = self.shapes[node.where]
                ctx.check(type(part) is shape.partition_class, f"partition of {name} is a {type(part).__name__}")
                ctx.check(type(part.storage) is shape.cls and part.storage == art.storage, f"storage of a partition of {name}")
                ctx.check((part.input_fingerprint is None) == (name in self.raws), f"input fingerprint of a partition of {name}: {part.input_fingerprint}")
                want = {f: shape.expected(f, graph=self.g.name, tags=self.path_tags, name=name, key={f: v.value for f, v in part.partition_key.items()}, kinds=node.fields, fp=part.input_fingerprint, extension=art.format.extension) for f in shape.fields}
                got = {f: getattr(part, f) for f in shape.fields}
                ctx.eq(got, want, f"fields of a partition of {name}", templates={f: shape.template(f) for f in shape.fields})
                ctx.eq({f: getattr(part, f) for f in shape.extra}, shape.extra_values, f"other fields of a partition of {name}")
                if shape.etag:
                    ctx.check(part.etag != 0 and part.etag in DATA[part.place], f"what the writer of {name} returned was not recorded", etag=part.etag)
                    ctx.n["versioned_partitions"] += 1
                other = used.setdefault(part.place, (name, part.partition_key))
                ctx.check(other == (name, part.partition_key), f"two partitions share the place {part.place}", other=other, this=(name, part.partition_key))
                ctx.n["places"] += 1
                ctx.n["own_key_fields"] += any(k in c17.KEY_VALUES for _, k in node.fields)
                ctx.seen(("place", len(shape.fields), shape.seg, shape.kv, shape.comp, tuple(k for k, _ in node.fields), node.fmt, name in self.raws, bool(self.path_tags), shape.etag, tuple(shape.extra)))

    def check_taken(self):
        """Versioned raw data is read as recorded, whatever was stored since."""
        ctx = self.ctx
        for snap, raws in self.taken:
            for name, rows in raws.items():
                got = snap.read(snap.artifacts[name], annotation=list)
                ctx.eq(sorted(map(repr, got)), rows, f"raw {name} read through an earlier snapshot")
                ctx.n["versioned_reads"] += 1

    def step(self):
        self.build()
        snap = self.g.snapshot().build()
        self.check_places(snap)
        versioned = {n: sorted(repr(r) for rows in parts.values() for r in rows) for n, (node, parts) in self.raws.items() if node.where in self.shapes and self.shapes[node.where].etag}
        self.taken.append((snap, versioned))

    def run(self):
        rng = self.rng
        self.taken: list = []
        self.start()
        self.step()
        for _ in range(rng.choice([1, 2, 4])):
            op = self.mutate()
            if op == "remove" or op == "many":  # a removed partition takes its versions with it
                self.taken.clear()
            self.step()
            self.check_taken()


def misfit(ctx, rng):
    """A storage whose fields are not those of its partitions is refused when it is defined."""
    a = {"x": str, "n": int}
    b = dict(a)
    how = rng.choice(["missing", "extra", "type", "fits"])
    if how == "missing":
        del b[rng.choice(list(b))]
    elif how == "extra":
        b["z"] = rng.choice([str, int])
    elif how == "type":
        f = rng.choice(list(b))
        b[f] = rng.choice([t for t in (str, int, float, str | None) if t != b[f]])
    part = type("OddPartition", (ShelfPartition,), {"__module__": __name__, "__annotations__": a})

    def define():
        return type("Odd", (Storage[part],), {"__module__": __name__, "__annotations__": b, "discover_partitions": discover})

    if how == "fits":
        ctx.check(define().storage_partition_type is part, "the partition type of a storage")
    else:
        ctx.raises(TypeError, define, f"a storage that does not fit its partitions ({how})")
        ctx.n["misfits_refused"] += 1


def case(ctx, rng):
    DATA.clear()
    INDEX.clear()
    if rng.random() < 0.3:
        misfit(ctx, rng)
    w = World(ctx, rng)
    try:
        w.run()
        if len(ctx.samples) < 4:
            ctx.samples.append({"case": ctx.case_id, "storages": [{f: s.template(f) for f in s.fields} for s in w.shapes.values()], "formats": sorted({n.fmt for n in w.nodes.values()})})
    finally:
        c17.EXTRA_STORAGES.clear()
        c17.EXTRA_FORMATS.clear()
        c17.EXTRA_DUMPS.clear()
        ctx.rmdir(w.root)
