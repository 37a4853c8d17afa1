"""C24: artifact specifications combine class defaults and instance values faithfully.

Random class hierarchies (each level declaring any of type, format, storage, annotations, statistics, possibly
with narrowed field types) are instantiated with random explicit values; a model resolves what every field must
be, including the text of every storage field for the artifact's type and format, and the same is checked after
copies, pickling, production by a producer and assignment to a graph. Class defaults must never change.
"""
import copy
import datetime
import pickle
from typing import Annotated, Any, ClassVar

from arti import Annotation, Artifact, Fingerprint, Format, Graph, InputFingerprints, PartitionKey, Producer, Statistic, Storage, StoragePartition
from arti import types as T
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.partitions import DateField, Int8Field, Int16Field, Int32Field, Int64Field, NullField
from arti.storage.google.cloud.storage import GCSFile
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types.python import python_type_system
from arti.types import Type
from arti.types.numpy import numpy_type_system

from core import Violation

PROP = "C24"
CASES = {"quick": 20000, "thorough": 80000}
SECONDS = {"quick": 100, "thorough": 1200}


class Note(Annotation):
    text: str


class Owner(Annotation):
    name: str
    level: int = 0


class Rows(Statistic):
    n: int


class Max(Statistic):
    field: str


class CSVish(Format):
    type_system = python_type_system
    extension: str = ".csv.gz"


class Bare(Format):
    """A format without any file extension."""

    type_system = python_type_system


class Scalars(Format):
    """A format that can express scalars only."""

    type_system = numpy_type_system
    extension: str = ".npy"


class TwoPartition(StoragePartition):
    first: str
    second: str

    def compute_content_fingerprint(self):
        return Fingerprint.from_string(self.first + self.second)


class Two(Storage[TwoPartition]):
    """Two templated fields and separators of its own."""

    key_value_sep: ClassVar[str] = ":"
    partition_name_component_sep: ClassVar[str] = "__"
    segment_sep: ClassVar[str] = "|"

    first: str = "{graph_name}|{partition_key_spec}|{name}{extension}"
    second: str = "db|{input_fingerprint}"

    def discover_partitions(self, input_fingerprints=InputFingerprints()):
        return ()


FIELDS = {"d": (T.Date, DateField, ["Y", "m:02", "d:02"]), "i8": (T.Int8, Int8Field, ["value"]), "i16": (T.Int16, Int16Field, ["value"]), "i32": (T.Int32, Int32Field, ["value"]), "i64": (T.Int64, Int64Field, ["value"]), "nul": (T.Null, NullField, ["value"])}


def gen_type(rng):
    r = rng.random()
    if r < 0.45:
        names = rng.sample(["k", "date", "a_b", "Z", "k2"], rng.choice([1, 1, 2, 3]))
        keys = {n: rng.choice(list(FIELDS)) for n in names}
        fields = {**{n: FIELDS[k][0]() for n, k in keys.items()}, "v": rng.choice([T.Int64(), T.String()])}
        order = list(fields)
        rng.shuffle(order)
        return T.Collection(element=T.Struct(fields={n: fields[n] for n in order}), partition_by=tuple(names)), tuple(keys.items())
    t = rng.choice([T.Int64(), T.String(), T.Float64(nullable=True), T.Boolean(), T.List(element=T.Int64()), T.Map(key=T.String(), value=T.Int64()), T.Struct(fields={"a": T.Int64()}), T.Collection(element=T.Struct(fields={"a": T.Int64()}))])
    return t, ()


def scalar_only(t):
    return type(t) in (T.Int64, T.Float64, T.Boolean, T.String)


def inexpressible(rng, depth=None, nullable=None):
    """A type with a part that Python types cannot express, at any depth."""
    n = lambda: {"nullable": rng.random() < 0.3 if nullable is None else nullable}  # noqa: E731
    t = rng.choice([lambda: T.Geography(**n()), lambda: T.Time(precision="second", **n()), lambda: T.DateTime(precision="microsecond", **n())])()
    for _ in range(rng.randint(1, 4) if depth is None else depth):
        t = rng.choice([
            lambda: T.List(element=t, **n()), lambda: T.Set(element=t, **n()), lambda: T.Map(key=T.String(), value=t, **n()),
            lambda: T.Struct(fields={"a": T.Int64(), "b": t}, **n()), lambda: T.Struct(fields={"b": t, "a": T.Int64(**n())}, **n()), lambda: T.Collection(element=T.Struct(fields={"a": t}), **n()),
        ])()
    return t


def gen_format(rng):
    return rng.choice([JSON(), Pickle(), CSVish(), Bare(), JSON(extension=".jsonl"), Pickle(extension=""), CSVish(extension=""), CSVish(extension=rng.choice(["_odd", "csv", ".", "..", ".CSV", "-v1.csv", " x", "é"]))])


LEADS = ["/data", "x", "a/b c", "é", "{graph_name}", "{path_tags}", "{names}", "pre-{graph_name}"]


def gen_storage(rng, keys):
    """(storage, {field: template})"""
    kind = rng.choice(["local", "local", "rooted", "gcs", "literal", "two", "fixed"])
    segs = [rng.choice(LEADS)]
    if rng.random() < 0.7:
        segs.append(rng.choice(["{partition_key_spec}", "{partition_key_spec}", "p-{partition_key_spec}-q"]))
    if rng.random() < 0.4:
        segs.append("{input_fingerprint}")
    if rng.random() < 0.3:
        segs.append(rng.choice(["{names}", "lit", "{name}"]))
    last = rng.choice(["{name}{extension}", "file{extension}", "f.dat", "{extension}", "{name}"])
    if rng.random() < 0.15:  # the parts in another order
        rng.shuffle(segs)
    if kind == "two":
        t = {"first": "|".join([*segs, last]), "second": rng.choice(["const", "db|{input_fingerprint}", "{partition_key_spec}|x", "{name}{extension}"])}
        return Two(**t), t
    if kind == "fixed":
        t = {"path": "/fixed/" + rng.choice(["a.bin", "b"])}
        return LocalFile(**t), t
    path = "/".join([*segs, last])
    if kind == "local":
        return LocalFile(path=path), {"path": path}
    if kind == "rooted":
        s = LocalFile.rooted_at("/root/x")
        return s, {"path": "/root/x/{graph_name}/{path_tags}/{names}/{partition_key_spec}/{input_fingerprint}/{name}{extension}"}
    if kind == "gcs":
        b = rng.choice(["bkt", "b-{graph_name}"])
        return GCSFile(bucket=b, path=path), {"bucket": b, "path": path}
    if rng.random() < 0.5:
        return StringLiteral(), {"id": "{graph_name}/{path_tags}/{names}/{partition_key_spec}/{input_fingerprint}/{name}{extension}", "value": None}
    return StringLiteral(id=path, value='"{extension}{partition_key_spec}"'), {"id": path, "value": '"{extension}{partition_key_spec}"'}


def fill(template, sep, **values):
    """Model of template resolution: parts that are not used vanish together with their separator."""
    if template is None:
        return None
    for ph, value in values.items():
        mark = "{" + ph + "}"
        if value:
            template = template.replace(mark, value)
        elif mark in template:
            segs = template.split(sep)
            segs = [s for s in (None if s == mark else s.replace(mark, "") for s in segs) if s is not None]
            while segs and segs[-1] == "":
                segs.pop()
            template = sep.join(segs)
    return template


def expected_storage(storage, templates, keys, extension):
    kv, comp, sep = (":", "__", "|") if isinstance(storage, Two) else ("=", "_", "/")
    spec = sep.join(f"{n}{comp}{c.split(':')[0]}{kv}{{{n}.{c}}}" for n, k in keys for c in FIELDS[k][2])
    out = {}
    for f, t in templates.items():
        out[f] = t if isinstance(storage, StringLiteral) and f == "value" else fill(fill(t, sep, partition_key_spec=spec), sep, extension=extension)
    return out


def same_seq(got, want):
    return len(got) == len(want) and all(type(a) is type(b) and a == b for a, b in zip(got, want))


def gen_annotations(rng, pre):
    n = rng.choice([0, 1, 1, 2, 3])
    return tuple(rng.choice([lambda i=i: Note(text=f"{pre}{i}"), lambda i=i: Owner(name=f"{pre}{i}", level=i)])() for i in range(n))


def gen_statistics(rng, pre):
    n = rng.choice([0, 1, 2])
    return tuple(rng.choice([lambda i=i: Rows(n=hash(pre) % 100 * 10 + i), lambda i=i: Max(field=f"{pre}{i}")])() for i in range(n))


ANN = {"type": Type, "format": Format, "storage": Storage, "annotations": tuple[Annotation, ...], "statistics": tuple[Statistic, ...]}


def gen_class(rng):
    """A chain of classes; returns the last one and its effective defaults."""
    cls, defaults = Artifact, {"annotations": (), "statistics": ()}
    levels = rng.choice([0, 1, 1, 1, 2, 3])
    for lv in range(levels):
        own = {}
        if rng.random() < 0.6:
            own["type"] = gen_type(rng)
        if rng.random() < 0.5:
            own["format"] = gen_format(rng)
        if rng.random() < 0.5:
            own["storage"] = gen_storage(rng, ())
        if rng.random() < 0.55:
            own["annotations"] = gen_annotations(rng, f"c{lv}-")
        if rng.random() < 0.4:
            own["statistics"] = gen_statistics(rng, f"c{lv}-")
        body = {"__module__": __name__, "__annotations__": {k: ANN[k] for k in own}}
        for k, v in own.items():
            body[k] = v[0] if k in ("type", "storage") else v
        cls = type(f"Level{lv}", (cls,), body)
        defaults = {**defaults, **own}
    return cls, defaults, levels


def case(ctx, rng):
    cls, defaults, levels = gen_class(rng)
    given = {}
    if "type" not in defaults or rng.random() < 0.3:
        given["type"] = gen_type(rng)
    if rng.random() < 0.4:
        given["format"] = gen_format(rng)
    if rng.random() < 0.4:
        given["storage"] = gen_storage(rng, ())
    if rng.random() < 0.6:
        given["annotations"] = gen_annotations(rng, "i-")
    if rng.random() < 0.4:
        given["statistics"] = gen_statistics(rng, "i-")

    def kwargs():
        kw = {}
        for k, v in given.items():
            kw[k] = v[0] if k in ("type", "storage") else v
        for k in ("annotations", "statistics"):
            if k in kw and rng.random() < 0.5:
                kw[k] = list(kw[k])
        items = list(kw.items())
        rng.shuffle(items)
        return dict(items)

    eff = {**defaults, **given}
    type_, keys = eff["type"]
    format_ = eff.get("format", JSON())
    storage, templates = eff.get("storage") or (StringLiteral(), {"id": "{graph_name}/{path_tags}/{names}/{partition_key_spec}/{input_fingerprint}/{name}{extension}", "value": None})
    want = {
        "type": type_,
        "format": format_,
        "annotations": (*defaults["annotations"], *given.get("annotations", ())),
        "statistics": (*defaults["statistics"], *given.get("statistics", ())),
        "storage": expected_storage(storage, templates, keys, format_.extension),
    }
    snapshot_before = {k: repr(v) for k, v in {**{f"d{k}": v for k, v in defaults.items()}, **{f"g{k}": v for k, v in given.items()}}.items()}
    class_before = {f: repr(i.default) for f, i in cls.model_fields.items()}
    if any(v == "" for k, v in want["storage"].items()):
        ctx.raises(ValueError, lambda: cls(**kwargs()), "a location that is empty once unused parts are removed")
        ctx.n["empty_location"] += 1
        return

    def check(a, how, resolved=True):
        ctx.check(type(a) is cls, f"{how}: class", got=type(a))
        ctx.check(type(a.type) is type(want["type"]) and a.type == want["type"], f"{how}: type", got=a.type, want=want["type"])
        ctx.check(type(a.format) is type(want["format"]) and a.format == want["format"], f"{how}: format", got=a.format, want=want["format"])
        for k in ("annotations", "statistics"):
            ctx.check(type(getattr(a, k)) is tuple and same_seq(getattr(a, k), want[k]), f"{how}: {k}", got=getattr(a, k), want=want[k])
        ctx.check(type(a.storage) is type(storage), f"{how}: storage class", got=a.storage)
        if resolved:
            for f, text in want["storage"].items():
                ctx.check(getattr(a.storage, f) == text, f"{how}: storage field {f}", got=getattr(a.storage, f), want=text, template=templates[f])
            ctx.check(dict(a.storage.key_types) == {n: FIELDS[k][1] for n, k in keys}, f"{how}: partition key types", got=a.storage.key_types)

    a = cls(**kwargs())
    check(a, "a new artifact")
    b = cls(**kwargs())
    check(b, "another new artifact")
    ctx.check(a == b and hash(a) == hash(b) and a.fingerprint == b.fingerprint, "two artifacts made alike differ")
    sibling = rng.choice(["copy", "deepcopy", "model_copy", "update", "pickle", "out"])
    if sibling == "copy":
        check(copy.copy(a), sibling)
    elif sibling == "deepcopy":
        check(copy.deepcopy(a), sibling)
    elif sibling == "model_copy":
        check(a.model_copy(), sibling)
    elif sibling == "update":
        c = a.model_copy(update={"annotations": (Note(text="z"),)})
        ctx.check(same_seq(c.annotations, (Note(text="z"),)) and same_seq(c.statistics, want["statistics"]), "a copy with changed annotations")
        check(a, "the original of a changed copy")
    elif sibling == "pickle" and cls is Artifact:
        check(pickle.loads(pickle.dumps(a)), sibling)
    ctx.n[f"route_{sibling}"] += 1
    # Passing artifacts around (as inputs, outputs and graph members) keeps the specification.
    try:
        with Graph(name="gn", path_tags=rng.choice([{}, {"t": "u"}, {"0": "0"}]), backend=MemoryBackend()) as g:
            g.artifacts["ns.art"] = a
    except ValueError:
        empty = any(not fill(fill(fill(fill(fill(t, "|" if isinstance(storage, Two) else "/", input_fingerprint=""), "/", path_tags=""), "/", graph_name="gn"), "/", names="ns/art"), "/", name="art") for t in want["storage"].values() if t is not None)
        ctx.check(empty, "a well-formed artifact cannot be assigned", storage=want["storage"])
    else:
        got = g.artifacts["ns.art"]
        check(got, "an assigned artifact", resolved=False)
        check(a, "the artifact that was assigned")
        text = "".join(str(getattr(got.storage, f)) for f in want["storage"] if f != "value")
        ctx.check("{extension}" not in text and "{partition_key_spec}" not in text, "an assigned artifact's location is not adapted to its type and format", got=text)
        if keys and not isinstance(storage, StringLiteral):
            vals = {n: (datetime.date(2021, 2, 3) if k == "d" else None if k == "nul" else 5) for n, k in keys}
            pk = PartitionKey({n: (FIELDS[k][1](value=vals[n]) if k != "nul" else NullField()) for n, k in keys})
            try:
                part = got.storage.generate_partition(partition_key=pk)
            except ValueError:
                ctx.check("{input_fingerprint}" in text, "no partition can be located")
            else:
                kv, comp, sep = (":", "__", "|") if isinstance(storage, Two) else ("=", "_", "/")
                parts = [f"{n}{comp}{c.split(':')[0]}{kv}" + (str(vals[n]) if c == "value" else {"Y": "2021", "m:02": "02", "d:02": "03"}[c]) for n, k in keys for c in FIELDS[k][2]]
                for f, t in templates.items():
                    if "{partition_key_spec}" in str(t):
                        ctx.check(sep.join(parts) in getattr(part, f), "a partition's location lacks its key", got=getattr(part, f), want=sep.join(parts))
                        ctx.n["partition_locations"] += 1
        ctx.n["assigned"] += 1
    # Class defaults and given values are as before.
    after = {k: repr(v) for k, v in {**{f"d{k}": v for k, v in defaults.items()}, **{f"g{k}": v for k, v in given.items()}}.items()}
    ctx.eq(after, snapshot_before, "values an artifact was made of")
    ctx.eq({f: repr(i.default) for f, i in cls.model_fields.items()}, class_before, "class defaults")
    if rng.random() < 0.3:  # the same class (and the same default objects) with another type and format
        t2, k2 = gen_type(rng)
        f2 = gen_format(rng)
        w2 = expected_storage(storage, templates, k2, f2.extension)
        if "storage" not in given and all(v != "" for v in w2.values()):
            c = cls(type=t2, format=f2)
            ctx.check(all(getattr(c.storage, f) == v for f, v in w2.items()) and c.type == t2 and c.format == f2, "a second artifact of the class", got=c.storage, want=w2)
            ctx.check(same_seq(c.annotations, defaults["annotations"]) and same_seq(c.statistics, defaults["statistics"]), "a second artifact's annotations")
            check(a, "an artifact after another one was made")
            ctx.n["second_artifacts"] += 1
    if rng.random() < 0.3:  # a storage taken from one artifact adapts to the type of the next
        t2, k2 = gen_type(rng)
        w2 = expected_storage(a.storage, {f: getattr(a.storage, f) for f in templates}, k2, JSON().extension)
        c = Artifact(type=t2, format=JSON(), storage=a.storage)
        ctx.check(all(getattr(c.storage, f) == v for f, v in w2.items()), "an artifact made with another one's storage", got=c.storage, want=w2)
        ctx.check(dict(c.storage.key_types) == {n: FIELDS[k][1] for n, k in k2}, "key types of a storage taken from another artifact", got=c.storage.key_types, want=k2)
        check(a, "an artifact whose storage was used again")
        if not any("{" in str(v) for v in w2.values()):
            pk = PartitionKey({n: NullField() if k == "nul" else FIELDS[k][1](value=datetime.date(2021, 2, 3) if k == "d" else 5) for n, k in k2})
            c.storage.generate_partition(partition_key=pk)
            ctx.n["storage_reused_partitions"] += 1
        ctx.n["storage_reused"] += 1
    refused(ctx, rng, cls, eff)
    ctx.seen((levels, tuple(sorted(defaults)), tuple(sorted(given)), type(storage).__name__, tuple(templates.values()), keys, type(format_).__name__, format_.extension), {"class": cls.__name__, "given": sorted(given), "storage": want["storage"]} if len(ctx.samples) < 4 else None)


class NarrowStorage(Artifact):
    type: Type = T.Int64()
    storage: LocalFile = LocalFile(path="/x{extension}")


class NarrowFormat(Artifact):
    type: Type = T.Int64()
    format: JSON = JSON()


class NarrowType(Artifact):
    type: T.Struct
    format: Format = JSON()


def refused(ctx, rng, cls, eff):
    base = {"type": eff["type"][0], "format": eff.get("format", JSON()), "storage": (eff.get("storage") or (StringLiteral(),))[0]}

    def mk(**kw):
        return lambda: cls(**{**base, **kw})

    untyped = type("Untyped", (Artifact,), {"__module__": __name__, "__annotations__": {"format": Format}, "format": JSON()})
    badcls = type("BadCls", (Artifact,), {"__module__": __name__, "__annotations__": {"type": Type, "format": Format}, "type": T.Geography(), "format": rng.choice([JSON(), Pickle(), CSVish()])})
    part_str = T.Collection(element=T.Struct(fields={"s": T.String(), "v": T.Int64()}), partition_by=("s",))
    what, fn = rng.choice([
        ("no type", lambda: untyped()),
        ("a type its format cannot express", mk(type=T.Geography(), format=rng.choice([JSON(), Pickle(), CSVish()]))),
        ("a nested type its format cannot express", mk(type=inexpressible(rng), format=rng.choice([JSON(), Pickle(), CSVish(), Bare(), JSON(extension="")]))),
        ("a nullable type its format cannot express", mk(type=inexpressible(rng, 0, True), format=rng.choice([JSON(), Pickle(), CSVish()]))),
        ("a class type its class format cannot express", lambda: badcls()),
        ("a type another format cannot express", mk(type=T.Struct(fields={"a": T.Map(key=T.String(), value=T.Int64())}), format=Scalars())),
        ("a partition field that has no partition key", mk(type=part_str)),
        ("a type that is not a Type", mk(type=rng.choice([int, "Int64", T.Int64, None, 5]))),
        ("a format that is not a Format", mk(format=rng.choice(["json", JSON, None, 5, T.Int64()]))),
        ("a storage that is not a Storage", mk(storage=rng.choice(["/path", LocalFile, None, 5, JSON()]))),
        ("annotations that are not Annotations", mk(annotations=rng.choice([("x",), [5], (Note,), (Rows(n=1),), (Note(text="a"), None), "text", 5]))),
        ("statistics that are not Statistics", mk(statistics=rng.choice([("x",), [5], (Note(text="x"),), (Rows(n=1), None), 5]))),
        ("an unknown field", mk(unknown=1)),
        ("a narrower storage's violation", lambda: NarrowStorage(storage=rng.choice([GCSFile(bucket="b", path="p"), StringLiteral()]))),
        ("a narrower format's violation", lambda: NarrowFormat(format=rng.choice([Pickle(), CSVish()]))),
        ("a narrower type's violation", lambda: NarrowType(type=rng.choice([T.Int64(), T.List(element=T.Int64())]))),
    ])
    ctx.raises(Exception, fn, f"making an artifact with {what}")
    ctx.n["refused"] += 1
    ctx.seen(("refused", what))


def outputs(ctx):
    """Outputs a producer makes by default, or is given, keep their class's specification."""

    class Made(Artifact):
        type: Type = T.Int64()
        format: Format = Pickle()
        storage: Storage = LocalFile(path="/made/{input_fingerprint}/{name}{extension}")
        annotations: tuple[Annotation, ...] = (Note(text="class"),)

    class P(Producer):
        a: Artifact

        @staticmethod
        def build(a: int) -> Annotated[int, Made]:
            return a

    src = Artifact(type=T.Int64(), storage=StringLiteral(value="1"), annotations=[Note(text="raw")])
    p = P(a=src)
    ctx.eq(p.a.annotations, (Note(text="raw"),), "annotations of an input")
    for out in (p.out(), p.out(Made(annotations=(Owner(name="me"),)))):
        own = out.annotations[1:]
        ctx.eq(out.annotations[:1], (Note(text="class"),), "annotations of an output")
        ctx.check(own in ((), (Owner(name="me"),)), "annotations of an output", got=out.annotations)
        ctx.eq(out.storage.path, "/made/{input_fingerprint}/{name}.pickle", "location of an output")
        with Graph(name="g", backend=MemoryBackend()) as g:
            g.artifacts.src = src
            g.artifacts["a.b"] = out
        got = g.artifacts["a.b"]
        ctx.eq(got.annotations, out.annotations, "annotations of an assigned output")
        ctx.eq(got.storage.path, "/made/{input_fingerprint}/b.pickle", "location of an assigned output")
        again = P(a=g.artifacts.src).out(Made())
        ctx.eq(again.annotations, (Note(text="class"),), "annotations of another output")
    ctx.n["outputs"] += 1


SCENARIOS = [outputs]
