"""C05: fingerprint <=> significant content.

Definitions are generated as specs (plain nested tuples). An independent canonicaliser strips what is
declared insignificant; the oracle demands fp(a) == fp(b) exactly when canonical(a) == canonical(b),
over re-construction, single-point mutations at any depth, copies, pickles, other processes, and all
definitions ever generated in the shard (pairwise distinctness).
"""
import copy
import datetime
import math
import pickle
from pathlib import Path
from typing import Annotated

from pydantic import Field

from arti import Annotation, Artifact, Fingerprint, Format, Graph, PartitionKey, Producer, Statistic
from arti import types as T
from arti.artifacts import Artifact as _A  # noqa: F401
from arti.backends.memory import MemoryBackend
from arti.fingerprints import SkipFingerprint
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.internal.mappings import FrozenMapping
from arti.partitions import DateField, Int8Field, Int32Field, Int64Field, NullField
from arti.producers import ProducerOutput
from arti.storage import StoragePartitionSnapshot
from arti.storage.google.cloud.storage import GCSFile, GCSFilePartition
from arti.storage.literal import StringLiteral, StringLiteralPartition
from arti.storage.local import LocalFile, LocalFilePartition
from arti.types.python import python_type_system
from arti.versions import GitCommit, SemVer, String, Timestamp
from arti.views import python as V

import typegen
from core import in_child

PROP = "C05"
CASES = {"quick": 60000, "thorough": 250000}
SECONDS = {"quick": 100, "thorough": 1200}


# ------------------------------------------------------------------ user classes
class Note(Annotation):
    text: str


class Remark(Annotation):
    text: str


class Rich(Annotation):
    num: float
    opt: int | None
    raw: bytes
    tup: tuple[int, ...]
    day: datetime.date
    at: datetime.datetime
    took: datetime.timedelta
    tags: FrozenMapping[str, str]
    flag: bool
    nums: frozenset[int]


class Nest(Annotation):
    inner: Annotation
    more: tuple[Annotation, ...]
    by: FrozenMapping[str, Annotation]


class Draft(Annotation):
    kept: Annotated[int, SkipFingerprint(False)]
    memo: Annotated[str, SkipFingerprint()]
    notes: Annotated[tuple[Annotation, ...], Field(repr=False), SkipFingerprint()]
    quiet: Annotated[int | None, Field(repr=False)]
    plain: Annotated[str, "described"]


class FinalDraft(Draft):
    memo: str  # significant after all


class Count(Statistic):
    n: int


class Total(Statistic):
    n: int


class Csv(Format):
    type_system = python_type_system
    extension: str = ".csv"
    sep: str
    level: int | None


class Tsv(Csv):
    pass


class Table(Artifact):
    pass


class Owned(Artifact):
    owner: str


class One(Producer):
    x: Artifact

    @staticmethod
    def build(x: int) -> int:
        return x


class Uno(Producer):
    x: Artifact

    @staticmethod
    def build(x: int) -> int:
        return x


class Two(Producer):
    x: Artifact
    y: Artifact

    @staticmethod
    def build(x: int, y: int) -> tuple[int, int]:
        return x, y


# ------------------------------------------------------------------ spec generation
# ("M", class key, {field: spec}), ("T", [specs]), ("D", {k: spec}), ("TY", type spec, descriptions seed), ("V", value)
WORDS = ["", "a", "b", "ab", "A", "é", "null", "None", "1", '"', "\\", "\n", "x" * 300, "a,b", "{x}", "['a']"]


def v(fn):
    return lambda rng, d: ("V", fn(rng))


def word(rng):
    return rng.choice(WORDS) if rng.random() < 0.5 else f"w{rng.getrandbits(24)}"


def number(rng):
    return rng.choice([0.0, 1.0, -1.5, 0.1, 1e300, 5e-324, math.inf, -math.inf, 1 / 3, 0.30000000000000004])


def model(*keys):
    return lambda rng, d: gen(rng, rng.choice(keys), d - 1)


def tup(item, lo=0, hi=3):
    return lambda rng, d: ("T", [item(rng, d) for _ in range(rng.randint(lo, hi) if d > 0 else lo)])


def mapping(item):
    return lambda rng, d: ("D", {f"k{i}": item(rng, d) for i in sorted(rng.sample(range(6), rng.randint(0, 3) if d > 0 else 0))})


SUPPORTED = ["Int64", "Float64", "String", "Date", "Boolean", "Int32", "Int8", "Float32", "Null"]


def any_type(rng, d):
    s = typegen.gen_collection(rng, 2) if rng.random() < 0.15 else typegen.gen(rng, rng.choice([0, 1, 2, 3]))
    return ("TY", s, rng.choice([0, 0, rng.getrandbits(16)]))


def data_type(rng, d):
    s = typegen.gen(rng, rng.choice([0, 0, 1, 2]), SUPPORTED, ("List", "Map", "Struct"))
    return ("TY", s, rng.choice([0, 0, rng.getrandbits(16)]))


def int_type(rng, d):
    return ("TY", ("Int64", False), 0)  # views compare whole types, including the description


def int_artifact(rng, d):
    a = gen(rng, "Artifact" if rng.random() < 0.6 else "Table", d - 1)
    a[2]["type"] = int_type(rng, d)
    a[2]["format"] = gen(rng, "JSON", 0)  # views must be able to read it
    return a


def fingerprint(rng):
    return Fingerprint.from_int(rng.choice([1, -1, 2**62, rng.getrandbits(60)]))


def dt(rng):
    return datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(microseconds=rng.getrandbits(40))


SPECKEY = mapping(model("DateField", "Int8Field", "Int32Field", "Int64Field", "NullField"))
ANNOTATIONS = ("Note", "Remark", "Rich", "Nest", "Draft", "FinalDraft")
STORAGES = ("StringLiteral", "LocalFile", "GCSFile")
small = lambda rng: rng.choice([0, 1, 2, 3, rng.getrandbits(20)])  # noqa: E731
path = lambda rng: rng.choice(["/d/", "x/", "", "é/"]) + f"p{rng.getrandbits(16)}"  # noqa: E731
opt = lambda fn: lambda rng: None if rng.random() < 0.3 else fn(rng)  # noqa: E731
DRAFT = {"kept": v(small), "memo": v(word), "notes": tup(model("Note", "Remark")), "quiet": v(opt(small)), "plain": v(word)}

REG = {
    "SemVer": (SemVer, {"major": v(lambda r: r.choice([0, 0, 0, 1, 2])), "minor": v(lambda r: r.randrange(3)), "patch": v(lambda r: r.randrange(3))}),
    "StringVersion": (String, {"value": v(word)}),
    "GitCommit": (GitCommit, {"sha": v(lambda r: f"{r.getrandbits(40):x}")}),
    "Timestamp": (Timestamp, {"dt": v(dt)}),
    "JSON": (JSON, {"extension": v(lambda r: r.choice([".json", ".js", ""]))}),
    "Pickle": (Pickle, {"extension": v(lambda r: r.choice([".pickle", ".js", ""]))}),
    "Csv": (Csv, {"extension": v(lambda r: r.choice([".csv", ".js"])), "sep": v(word), "level": v(opt(small))}),
    "Tsv": (Tsv, {"extension": v(lambda r: r.choice([".csv", ".js"])), "sep": v(word), "level": v(opt(small))}),
    "StringLiteral": (StringLiteral, {"id": v(path), "value": v(opt(word))}),
    "LocalFile": (LocalFile, {"path": v(path)}),
    "GCSFile": (GCSFile, {"bucket": v(lambda r: r.choice(["b1", "b2"])), "path": v(path)}),
    "Note": (Note, {"text": v(word)}),
    "Remark": (Remark, {"text": v(word)}),
    "Rich": (Rich, {
        "num": v(number), "opt": v(opt(small)), "raw": v(lambda r: r.choice([b"", b"a", b"\xff", b"\x00\xfe", b"AA==", r.randbytes(4)])),
        "tup": v(lambda r: tuple(small(r) for _ in range(r.randrange(4)))), "day": v(lambda r: datetime.date(2020, 1, 1) + datetime.timedelta(days=small(r) % 10000)),
        "at": v(dt), "took": v(lambda r: datetime.timedelta(microseconds=small(r))), "tags": v(lambda r: {f"t{i}": word(r) for i in range(r.randrange(3))}),
        "flag": v(lambda r: r.random() < 0.5), "nums": v(lambda r: frozenset(r.sample(range(50), r.randrange(6)))),
    }),
    "Nest": (Nest, {"inner": model(*ANNOTATIONS), "more": tup(model(*ANNOTATIONS)), "by": mapping(model(*ANNOTATIONS))}),
    "Draft": (Draft, DRAFT),
    "FinalDraft": (FinalDraft, DRAFT),
    "Count": (Count, {"n": v(small)}),
    "Total": (Total, {"n": v(small)}),
    "DateField": (DateField, {"value": v(lambda r: datetime.date(2020, 1, 1) + datetime.timedelta(days=r.randrange(2000)))}),
    "Int8Field": (Int8Field, {"value": v(lambda r: r.randrange(-128, 128))}),
    "Int32Field": (Int32Field, {"value": v(small)}),
    "Int64Field": (Int64Field, {"value": v(small)}),
    "NullField": (NullField, {}),
    "ProducerOutput": (ProducerOutput, {"producer": model("One", "Uno", "Two"), "position": v(lambda r: r.randrange(3))}),
    "One": (One, {"x": int_artifact}),
    "Uno": (Uno, {"x": int_artifact}),
    "Two": (Two, {"x": int_artifact, "y": int_artifact}),
    "LocalFilePartition": (LocalFilePartition, {"path": v(path), "storage": model("LocalFile"), "input_fingerprint": v(opt(fingerprint)), "partition_key": SPECKEY}),
    "GCSFilePartition": (GCSFilePartition, {"bucket": v(word), "path": v(path), "storage": model("GCSFile"), "input_fingerprint": v(opt(fingerprint)), "partition_key": SPECKEY}),
    "StringLiteralPartition": (StringLiteralPartition, {"id": v(path), "value": v(opt(word)), "storage": model("StringLiteral"), "input_fingerprint": v(opt(fingerprint)), "partition_key": SPECKEY}),
    "StoragePartitionSnapshot": (StoragePartitionSnapshot, {"content_fingerprint": v(fingerprint), "storage_partition": model("LocalFilePartition", "GCSFilePartition", "StringLiteralPartition")}),
    "Graph": (Graph, {"name": v(word), "path_tags": v(lambda r: {f"t{i}": word(r) for i in range(r.randrange(3))}), "backend": v(lambda r: ("backend", r.random()))}),
}
for _k, _c in (("Artifact", Artifact), ("Table", Table), ("Owned", Owned)):
    REG[_k] = (_c, {
        "type": data_type, "format": model("JSON", "Pickle", "Csv", "Tsv"), "storage": model(*STORAGES),
        "annotations": tup(model(*ANNOTATIONS)), "statistics": tup(model("Count", "Total")),
        "producer_output": lambda rng, d: gen(rng, "ProducerOutput", d - 1) if d > 1 and rng.random() < 0.2 else ("V", None),
    })
REG["Owned"][1]["owner"] = v(word)
for _k in ("One", "Uno", "Two"):
    REG[_k][1]["version"] = model("SemVer", "StringVersion", "GitCommit", "Timestamp")
    REG[_k][1]["annotations"] = tup(model(*ANNOTATIONS), 0, 2)
VIEWS = {"VInt": (V.Int, ("Int64", False)), "VStr": (V.Str, ("String", False)), "VFloat": (V.Float, ("Float64", False)), "VNull": (V.Null, ("Null", False)), "VList": (V.List, None), "VDict": (V.Dict, None)}
for _k, (_c, _t) in VIEWS.items():
    REG[_k] = (_c, {"mode": v(lambda r: r.choice(["READ", "WRITE", "READWRITE"])), "artifact_class": v(lambda r: r.choice([Artifact, Table, Owned])), "type": data_type})

INSIGNIFICANT = {("Draft", "memo"), ("Draft", "notes"), ("FinalDraft", "notes")} | {(k, "annotations") for k in ("One", "Uno", "Two")} | {(k, "producer_output") for k in ("Artifact", "Table", "Owned")} | {("Graph", "backend")}
ROOTS = [*REG, *(["Artifact", "Owned", "Two", "Nest", "Rich", "Draft", "FinalDraft", "VList", "SemVer", "SemVer", "SemVer"] * 2), *(["TYPE"] * 14)]


def gen(rng, key, d=3):
    if key == "TYPE":
        return any_type(rng, d)
    if d <= 0 and key == "Nest":
        key = "Note"
    return ("M", key, {f: g(rng, d) for f, g in REG[key][1].items()})


# ------------------------------------------------------------------ construction, canonical form, mutation
def build(s, rng=None):
    tag = s[0]
    if tag == "V":
        val = s[1]
        return MemoryBackend() if isinstance(val, tuple) and val[:1] == ("backend",) else val
    if tag == "T":
        return tuple(build(x, rng) for x in s[1])
    if tag == "D":
        return {k: build(x, rng) for k, x in s[1].items()}
    if tag == "TY":
        if not s[2]:
            return typegen.build(s[1])
        import random

        r = random.Random(s[2])
        return typegen.build(s[1], lambda: {"description": r.choice([None, "words", f"d{r.random()}"])})
    cls = REG[s[1]][0]
    kw = {k: build(x, rng) for k, x in s[2].items()}
    if "partition_key" in kw:
        kw["partition_key"] = PartitionKey(kw["partition_key"])
    if rng is not None:
        items = list(kw.items())
        rng.shuffle(items)
        kw = dict(items)
    return cls(**kw)


def canonical(s):
    tag = s[0]
    if tag == "V":
        val = s[1]
        if isinstance(val, dict):
            return ("dict", tuple((k, canonical(("V", x))) for k, x in val.items()))
        if isinstance(val, frozenset):
            return ("set", tuple(sorted(map(repr, val))))
        return (type(val).__name__, repr(val))
    if tag == "T":
        return ("T", *(canonical(x) for x in s[1]))
    if tag == "D":
        return ("D", *((k, canonical(x)) for k, x in s[1].items()))
    if tag == "TY":
        return ("TY", canon_type(s[1]))
    key, fields = s[1], s[2]
    drop = {f for f in fields if (key, f) in INSIGNIFICANT}
    if key == "SemVer" and fields["major"][1] > 0:
        drop |= {"minor", "patch"}
    return (REG[key][0].__name__, *((f, canonical(x)) for f, x in sorted(fields.items()) if f not in drop))


def canon_type(t):
    if isinstance(t, frozenset):
        return ("set", tuple(sorted((type(x).__name__, repr(x)) for x in t)))
    if isinstance(t, tuple):
        return tuple(canon_type(x) for x in t)
    return (type(t).__name__, repr(t))


def mutate(rng, s, d=3, pool=None):
    """One change somewhere in the tree (possibly in insignificant content)."""
    tag = s[0]
    if tag == "TY":
        if rng.random() < 0.25:
            return ("TY", s[1], rng.getrandbits(16))
        return ("TY", typegen.mutate(rng, s[1], pool), s[2])
    if tag == "T":
        xs = list(s[1])
        k = rng.choice(["item", "item", "drop", "dup", "swap"]) if xs else "none"
        i = rng.randrange(len(xs)) if xs else 0
        if k == "item":
            xs[i] = mutate(rng, xs[i], d)
        elif k == "drop":
            xs.pop(i)
        elif k == "dup":
            xs.insert(i, xs[i])
        elif k == "swap":
            j = rng.randrange(len(xs))
            xs[i], xs[j] = xs[j], xs[i]
        return ("T", xs)
    if tag == "D":
        m = dict(s[1])
        if m:
            k = rng.choice(list(m))
            if rng.random() < 0.7:
                m[k] = mutate(rng, m[k], d)
            else:
                del m[k]
        return ("D", m)
    if tag == "V":
        return s
    key, fields = s[1], s[2]
    if not fields:
        return s
    if rng.random() < 0.12 and isinstance(swap := {"Note": "Remark", "Remark": "Note", "Count": "Total", "Total": "Count", "Csv": "Tsv", "Tsv": "Csv", "One": "Uno", "Uno": "One", "Artifact": "Table", "Table": "Artifact", "Int32Field": "Int64Field", "Int64Field": "Int32Field", "JSON": "Pickle", "Pickle": "JSON"}.get(key), str):
        if key not in ("JSON", "Pickle") or fields["extension"][1] in (".js", ""):
            return ("M", swap, fields)
    f = rng.choice(list(fields))
    x = fields[f]
    if x[0] != "V" and rng.random() < 0.8:
        if key in VIEWS or f in ("x", "y"):  # keep it valid: views and producer inputs constrain the type
            y = fix(rng, key, f, mutate(rng, x, d, SUPPORTED))
        else:
            y = mutate(rng, x, d, SUPPORTED)
    else:
        y = REG[key][1][f](rng, d)
        y = fix(rng, key, f, y)
    return ("M", key, {**fields, f: y})


def fix(rng, key, f, y):
    if f in ("x", "y") and y[0] == "M" and y[1] in ("Artifact", "Table"):
        y = ("M", y[1], {**y[2], "type": ("TY", ("Int64", False), 0), "format": y[2]["format"] if y[2]["format"][1] == "JSON" else gen(rng, "JSON", 0)})
    return y


_seen: dict = {}
_jobs: list = []
CHILD = """
import sys; sys.path.insert(0, P['here'])
import c05
R = [int(c05.build(s).fingerprint) for s in P['specs']]
"""


def fp(ctx, s, what, rng=None):
    """Build and fingerprint; compare against everything seen so far."""
    m = build(s, rng)
    got = int(m.fingerprint)
    c = canonical(s)
    ctx.n["fingerprints"] += 1
    if got in _seen:
        ctx.check(_seen[got] == c, f"{what}: different definitions have the same fingerprint", a=_seen[got], b=c)
    _seen[got] = c
    return m, got


def flush(ctx):
    if not _jobs:
        return
    import os

    got = in_child(CHILD, {"here": os.path.dirname(os.path.abspath(__file__)), "specs": [s for s, _ in _jobs]}, (ctx.n["children"] * 7919 + 5) % 4294967295)
    ctx.n["children"] += 1
    for (s, want), g in zip(_jobs, got):
        ctx.check(g == want, "another process computes another fingerprint", spec=s, want=want, got=g)
        ctx.n["cross_process"] += 1
    _jobs.clear()


def copies(ctx, s, m, base, rng):
    """Copies keep the fingerprint; copies with updates equal fresh definitions."""
    kind = rng.choice(["copy", "deep", "copy.copy", "copy.deepcopy", "pickle", "update", "update", "update", "update"])
    src = build(s)
    if rng.random() < 0.5:
        src.fingerprint  # noqa: B018
        hash(src), repr(src)
    if kind != "update":
        if s[0] == "M" and s[1] == "Graph" and kind != "copy":
            kind = "copy"
        dup = {"copy": lambda: src.model_copy(), "deep": lambda: src.model_copy(deep=True), "copy.copy": lambda: copy.copy(src), "copy.deepcopy": lambda: copy.deepcopy(src), "pickle": lambda: pickle.loads(pickle.dumps(src))}[kind]()
        ctx.check(int(dup.fingerprint) == base, f"{kind} has another fingerprint", spec=s)
        ctx.n["copies"] += 1
        return
    if s[0] == "TY":
        name = rng.choice(["nullable", "description"])
        update = {name: (not src.nullable) if name == "nullable" else f"d{rng.random()}"}
    else:
        fields = [f for f in s[2] if f != "backend"]
        if not fields:
            return
        names = rng.sample(fields, rng.randint(1, min(2, len(fields))))
        update = {}
        for f in names:
            y = fix(rng, s[1], f, REG[s[1]][1][f](rng, 2))
            val = build(y)
            if f == "partition_key":
                val = PartitionKey(val)
            update[f] = val
    if isinstance(src, (Artifact, V.PythonBuiltin)) and {"type", "format", "storage"} & set(update):
        # Validators resolve these against each other, but copies are (documented as) not re-validated.
        update = {k: x for k, x in update.items() if k not in ("type", "format", "storage")}
        if not update:
            return
    normal = {f: getattr(type(src)(**{**{g: getattr(src, g) for g in type(src).model_fields}, **update}), f) for f in update}
    fresh = type(src)(**{**{g: getattr(src, g) for g in type(src).model_fields}, **update})
    dup = src.model_copy(update=normal)
    ctx.check(int(dup.fingerprint) == int(fresh.fingerprint), "a copy with changed values has another fingerprint than a fresh equal definition", spec=s, update=update)
    again = dup.model_copy()
    ctx.check(int(again.fingerprint) == int(fresh.fingerprint), "a copy of a changed copy has another fingerprint", spec=s)
    ctx.check(int(src.fingerprint) == base, "changing a copy changed the original's fingerprint", spec=s)
    ctx.n["updated_copies"] += 1


def case(ctx, rng):
    key = rng.choice(ROOTS)
    s = gen(rng, key)
    m, base = fp(ctx, s, key)
    label = key if key != "TYPE" else s[1][0]
    ctx.seen(("root", label, canonical(s)), {"spec": repr(s)[:300], "fingerprint": base} if len(ctx.samples) < 3 else None)
    ctx.check(int(m.fingerprint) == base, "reading the fingerprint twice")
    for _ in range(2):
        m2, g = fp(ctx, s, key, rng)
        ctx.check(g == base, "an equal definition has another fingerprint", spec=s)
        ctx.n["reconstructed"] += 1
    cur = s
    for _ in range(8 if ctx.tier == "quick" else 12):
        t = mutate(rng, cur)
        _, g = fp(ctx, t, f"mutated {label}", rng)
        same = canonical(t) == canonical(s)
        ctx.check((g == base) == same, "significant content changed but the fingerprint did not" if not same else "insignificant content changed the fingerprint", before=s, after=t)
        ctx.n["mutants_same" if same else "mutants_different"] += 1
        ctx.seen(("mutant", label, same, canonical(t)))
        if rng.random() < 0.3:
            cur = t  # several changes away
    copies(ctx, s, m, base, rng)
    if rng.random() < 0.25:
        _jobs.append((s, base))
        if len(_jobs) >= 60:
            flush(ctx)


def teardown(ctx):
    flush(ctx)


def producer_outputs(ctx):
    """Insignificant content set through the public API: out() attaches the producer to a copy."""
    a = Artifact(type=T.Int64(), format=JSON(), storage=LocalFile(path="x"))
    p = One(x=a, annotations=(Note(text="n"),))
    q = Uno(x=a)
    o1, o2 = p.out(a), q.out(a)
    ctx.check(o1.fingerprint == a.fingerprint == o2.fingerprint, "the producer of an artifact changed its fingerprint")
    ctx.check(o1.producer_output.fingerprint != o2.producer_output.fingerprint, "outputs of different producers have one fingerprint")
    ctx.check(One(x=a).fingerprint == p.fingerprint, "annotations changed the producer's fingerprint")
    ctx.check(One(x=o2).fingerprint == p.fingerprint, "the producer of an input changed a producer's fingerprint")


def graph_backends(ctx):
    def make(backend, text="a"):
        with Graph(name="g", backend=backend) as g:
            g.artifacts.x = 1
            g.artifacts.ns.y = Artifact(type=T.Int64(), storage=StringLiteral(value="2"), annotations=(Note(text=text),))
            g.artifacts.z = One(x=g.artifacts.x).out(Artifact(type=T.Int64(), storage=LocalFile(path=f"{Path('/tmp')}/{{names}}/{{input_fingerprint}}")))
        return g

    b = MemoryBackend()
    g = make(b)
    ctx.check(make(MemoryBackend()).fingerprint == g.fingerprint, "the backend changed the graph's fingerprint")
    ctx.check(g.model_copy(update={"backend": MemoryBackend()}).fingerprint == g.fingerprint, "the backend changed the graph's fingerprint (copy)")
    ctx.check(make(b, "b").fingerprint != g.fingerprint, "an annotation of a nested artifact left the graph's fingerprint unchanged")
    ctx.check(g.model_copy(update={"name": "h"}).fingerprint != g.fingerprint, "the name left the graph's fingerprint unchanged")


def graph_definitions(ctx):
    """Graphs of the same definition in any order of assignments and sittings - or another one."""
    import random

    rng = random.Random(ctx.seed)

    def spec():
        names = rng.sample(["a", "b", "A", "ns.a", "ns.b", "ns.deep.a", "z", "m.a", "é"], rng.randint(2, 6))
        raws = {k: (rng.choice(["int", "str", "list"]), rng.randrange(4), rng.choice(["", "n1", "n2"])) for k in names}
        steps = {f"out{i}" if rng.random() < 0.5 else f"ns.out{i}": (rng.choice(["One", "Uno"]), rng.choice(names)) for i in range(rng.randint(0, 3))}
        return (rng.choice(["g", "h", ""]), tuple(sorted({k: rng.choice("xy") for k in rng.sample(["t", "u", "v"], rng.randint(0, 3))}.items())), tuple(sorted(raws.items())), tuple(sorted(steps.items())))

    def make(s):
        name, tags, raws, steps = s
        tags, todo, late = list(tags), list(raws), list(steps)
        for x in (todo, late):
            rng.shuffle(x)
        g = Graph(name=name, path_tags=dict(tags), backend=MemoryBackend())
        cut = rng.randrange(len(todo) + 1)
        for part in (todo[:cut], todo[cut:]):
            with g:
                for k, (kind, v, note) in part:
                    value, t = {"int": (str(v), T.Int64()), "str": (f'"{v}"', T.String()), "list": (f"[{v}]", T.List(element=T.Int64()))}[kind]
                    g.artifacts[k] = Artifact(type=t, format=JSON(), storage=StringLiteral(value=value), annotations=(Note(text=note),) if note else ())
        with g:
            for k, (cls, src) in late:
                art = g.artifacts[src]
                if art.type == T.Int64():
                    g.artifacts[k] = {"One": One, "Uno": Uno}[cls](x=art).out(Artifact(type=T.Int64(), storage=LocalFile(path="/x/{names}/{input_fingerprint}")))
        return g

    def significant(s):
        name, tags, raws, steps = s
        ints = {k: x for k, x in raws if x[0] == "int"}
        return (name, tags, raws, tuple((k, (cls, ints[src])) for k, (cls, src) in steps if src in ints))

    def near(s):
        name, tags, raws, steps = s
        r, t = dict(raws), dict(steps)
        how = rng.choice(["name", "tags", "value", "note", "key", "drop", "step", "swap"])
        k = rng.choice(sorted(r))
        if how == "name":
            name += "x"
        elif how == "tags":
            tags = tuple(sorted({**dict(tags), rng.choice("tuv"): rng.choice("xyz")}.items()))
        elif how == "value":
            r[k] = (r[k][0], r[k][1] + 1, r[k][2])
        elif how == "note":
            r[k] = (*r[k][:2], r[k][2] + "+")
        elif how == "key":
            r["moved"] = r[k]
        elif how == "drop" and len(r) > 1 and all(src != k for _, src in t.values()):
            del r[k]
        elif how == "swap":
            j = rng.choice(sorted(r))
            r[k], r[j] = r[j], r[k]
        elif t:
            o = rng.choice(sorted(t))
            t[o] = (rng.choice(["One", "Uno"]), rng.choice(sorted(r)))
        return (name, tags, tuple(sorted(r.items())), tuple(sorted(t.items())))

    known = {}
    for _ in range(60):
        s = spec()
        for x in (s, s, near(s), near(near(s))):
            key, fp = significant(x), make(x).fingerprint
            ctx.eq(known.setdefault(key, fp), fp, f"fingerprint of a graph defined in another order: {x}")
            ctx.n["graph_definitions"] += 1
    by_fp = {}
    for key, fp in known.items():
        ctx.check(by_fp.setdefault(int(fp), key) == key, "graphs of different definitions share a fingerprint", a=key, b=by_fp[int(fp)])


SCENARIOS = [producer_outputs, graph_backends, graph_definitions]
