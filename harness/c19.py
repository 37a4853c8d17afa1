"""C19: definitions are immutable values.

Definitions are generated as specs (the grammar of c05.py). Each one is recorded (equality, hash, fingerprint, repr,
dump) and then attacked: every field is assigned/deleted, every container reachable from it is mutated, the mutable
objects it was built from are changed, it is used all over the library (graphs, producers, storages, dumps, copies, many
threads). After every attack the monitor compares it with the record and with a fresh equal definition. A second oracle
(`plain`, ordinary Python values) decides which definitions must compare equal and unequal. A third sends batches to
other processes with other hash seeds and compares both ways.
"""
import copy
import datetime
import os
import pickle
import threading
import types as pytypes
from collections.abc import Mapping
from enum import Enum
from typing import Any

from arti import Annotation, Artifact, Fingerprint, Format, Graph, PartitionField, PartitionKey, Producer, Statistic, Storage, Type, Version, View
from arti import types as T
from arti.backends import Backend
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.graphs import GraphSnapshot
from arti.internal.mappings import TypedBox, frozendict
from arti.internal.models import Model
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.versions import SemVer
from arti.views.python import PythonBuiltin

import c05
import typegen
from core import in_child

PROP = "C19"
CASES = {"quick": 25000, "thorough": 150000}
SECONDS = {"quick": 100, "thorough": 1200}

REG, gen, build, mutate, fix = c05.REG, c05.gen, c05.build, c05.mutate, c05.fix


# ------------------------------------------------------------------ user classes
class Loose(Annotation):
    """Any content - only as long as it can't change."""

    data: Any


class Bag(Annotation):
    items: tuple[Any, ...]


class Alien:
    """Belongs to no field."""

    __hash__ = None


class Twin(c05.Note):
    """The same fields as Note, but another class."""


# ------------------------------------------------------------------ oracles
def plain(s):
    """The ordinary Python value a definition must compare like."""
    tag = s[0]
    if tag == "V":
        return "backend" if isinstance(s[1], tuple) and s[1][:1] == ("backend",) else s[1]
    if tag == "T":
        return ("T", tuple(plain(x) for x in s[1]))
    if tag == "D":
        return ("D", {k: plain(x) for k, x in s[1].items()})
    if tag == "TY":
        return ("TY", s[1])
    return (REG[s[1]][0].__name__, {f: plain(x) for f, x in s[2].items() if f != "backend"})


def seeds(s):
    """The description seeds (in order), which `plain` ignores."""
    tag = s[0]
    if tag == "T":
        return [y for x in s[1] for y in seeds(x)]
    if tag == "D":
        return [y for _, x in sorted(s[1].items()) for y in seeds(x)]
    if tag == "TY":
        return [s[2]]
    if tag == "M":
        return [y for _, x in sorted(s[2].items()) for y in seeds(x)]
    return []


SCALARS = (str, int, float, bool, bytes, type(None), datetime.date, datetime.datetime, datetime.timedelta, Fingerprint, type, Enum)


def walk(ctx, x, where, depth=0):
    """Everything reachable through the public fields has to be an immutable kind of object."""
    if isinstance(x, Backend):
        return
    if isinstance(x, Model):
        for f in type(x).model_fields:
            walk(ctx, getattr(x, f), f"{where}.{f}", depth + 1)
    elif isinstance(x, TypedBox):
        for k in x:
            walk(ctx, x[k], f"{where}.{k}", depth + 1)
    elif isinstance(x, frozendict):
        hash(x)
        for k, y in x.items():
            walk(ctx, k, where, depth + 1)
            walk(ctx, y, f"{where}[{k!r}]", depth + 1)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            walk(ctx, y, where, depth + 1)
    elif callable(x) or isinstance(x, SCALARS):
        pass
    else:
        ctx.check(False, f"{where} holds a mutable {type(x).__name__}", value=repr(x)[:200])
    ctx.n["reachable"] += 1


def shape(x):
    """A printable form that doesn't depend on the iteration order of sets."""
    if isinstance(x, Backend):
        return type(x).__name__
    if isinstance(x, Model):
        return f"{type(x).__name__}({', '.join(f'{f}={shape(getattr(x, f))}' for f in type(x).model_fields)})"
    if isinstance(x, Mapping):
        return "{" + ", ".join(f"{k!r}: {shape(y)}" for k, y in x.items()) + "}"
    if isinstance(x, tuple):
        return "(" + ", ".join(map(shape, x)) + ")"
    if isinstance(x, (frozenset, set)):
        return "{" + ", ".join(sorted(map(shape, x))) + "}"
    return repr(x)


class Record:
    """What must never change about a definition."""

    def __init__(self, m):
        self.m = m
        self.hash = hash(m)
        self.fields = {f: getattr(m, f) for f in type(m).model_fields}
        self.repr = repr(m)
        self.shape = shape(m)
        self.fingerprint = None  # only read by some, so that both cached and uncached states are attacked

    def check(self, ctx, what, fresh=None):
        m = self.m
        ctx.check(hash(m) == self.hash, f"{what}: the hash changed", was=self.repr)
        ctx.check(repr(m) == self.repr and shape(m) == self.shape, f"{what}: the definition changed", was=self.repr, now=repr(m))
        for f, x in self.fields.items():
            ctx.check(getattr(m, f) is x or getattr(m, f) == x, f"{what}: {f} changed", was=x)
        ctx.check(m == m and not (m != m), f"{what}: not equal to itself")
        if self.fingerprint is not None:
            ctx.check(m.fingerprint == self.fingerprint, f"{what}: the fingerprint changed", was=self.repr)
        if fresh is not None:
            ctx.check(m == fresh and fresh == m and not (m != fresh), f"{what}: no longer equal to an equal definition", m=m)
            ctx.check(hash(m) == hash(fresh), f"{what}: equal definitions hash differently", m=m)
        ctx.n["rechecks"] += 1


def refused(ctx, fn, what):
    try:
        fn()
    except Exception:
        ctx.n["mutations_refused"] += 1
        return
    ctx.check(False, f"accepted: {what}")


# ------------------------------------------------------------------ attacks
def attack_fields(ctx, rng, m, other):
    names = list(type(m).model_fields)
    for f in names:
        old = getattr(m, f)
        new = rng.choice([getattr(other, f, 1), old, None, 1, "x", Alien()])
        refused(ctx, lambda f=f, new=new: setattr(m, f, new), f"assigning {type(m).__name__}.{f}")
        if rng.random() < 0.5:
            refused(ctx, lambda f=f: delattr(m, f), f"deleting {type(m).__name__}.{f}")
    for f in ("unknown", "fingerprint", "model_fields"):
        refused(ctx, lambda f=f: setattr(m, f, 1), f"assigning {type(m).__name__}.{f}")
    refused(ctx, lambda: delattr(m, "unknown"), "deleting an unknown attribute")


def containers(x, path="", depth=0):
    if isinstance(x, Backend):
        return
    if isinstance(x, Model):
        for f in type(x).model_fields:
            yield from containers(getattr(x, f), f"{path}.{f}", depth + 1)
        if depth:
            yield path, x
    elif isinstance(x, (Mapping, tuple, frozenset)):
        yield path, x
        for y in x.values() if isinstance(x, Mapping) else x:
            yield from containers(y, path, depth + 1)


def attack_container(ctx, rng, path, x):
    if isinstance(x, Model):
        f = rng.choice([*type(x).model_fields, "fingerprint", "zzz"])
        refused(ctx, lambda: setattr(x, f, rng.choice([None, 1, "x"])), f"assigning {path}.{f}")
    elif isinstance(x, Mapping) and not isinstance(x, TypedBox):
        ctx.check(isinstance(x, frozendict), f"{path} is a {type(x).__name__}")
        k = rng.choice([*x, "new"])
        before = dict(x)

        def item():
            x[k] = 1

        def delete():
            del x[k]

        for what, fn in {
            "setitem": item, "delitem": delete, "update": lambda: x.update({"q": 1}), "pop": lambda: x.pop(k), "clear": lambda: x.clear(),
            "setdefault": lambda: x.setdefault("q", 1), "popitem": lambda: x.popitem(),
        }.items():
            refused(ctx, fn, f"{what} on {path}")
        y = x
        y |= {"q1": 1}
        z = {"q2": 1}
        z |= x
        ctx.check(dict(x) == before and list(x) == list(before) and "q1" not in x and "q1" in y, f"|= changed {path}")
        ctx.check(dict(x | {"q": 1}) == {**before, "q": 1} and dict({"q": 1} | x) == {"q": 1, **before}, f"| on {path}")
        for view in (x.keys(), x.values(), x.items()):
            ctx.check(not any(hasattr(view, a) for a in ("add", "append", "update", "clear")), f"mutable view of {path}")
    elif isinstance(x, (tuple, frozenset)):
        for a in ("append", "add", "remove", "clear", "extend", "update"):
            refused(ctx, lambda a=a: getattr(x, a)(1), f"{a} on {path}")


def mutable_sources(ctx, rng, s, m):
    """Build from lists and dicts, then change those."""
    if s[0] != "M":
        return
    cls = type(m)
    held, kw = [], {}
    for f in cls.model_fields:
        x = getattr(m, f)
        if isinstance(x, Mapping) and not isinstance(x, TypedBox):
            kind = rng.randrange(3)
            src = dict(x)
            kw[f] = src if kind == 0 else pytypes.MappingProxyType(src) if kind == 1 else frozendict(src)
            held.append(src)
        elif isinstance(x, tuple) and isinstance(m, Artifact) and f in ("annotations", "statistics"):
            src = list(x)
            kw[f] = src
            held.append(src)
        elif not isinstance(x, TypedBox):
            kw[f] = x
    if not held:
        return
    n = cls(**kw)
    rec = Record(n)
    ctx.check(n == m and hash(n) == hash(m), "built from mutable containers: not equal", m=m, n=n)
    for src in held:
        if isinstance(src, dict):
            src["mutated"] = Alien()
            for k in list(src):
                src[k] = "mutated"
            rng.random() < 0.5 and src.clear()
        else:
            src.append("mutated")
            src.reverse()
            rng.random() < 0.5 and src.clear()
    rec.check(ctx, "changing the objects it was built from", m)
    ctx.check(n.fingerprint == m.fingerprint, "changing the objects it was built from changed the fingerprint", m=m)
    ctx.n["sources"] += 1


def use(ctx, rng, s, m, rec):
    """Things the library does with a definition."""
    kind = rng.choice(["fingerprint", "fingerprint", "dump", "copies", "set", "threads", "update", "domain", "domain", "domain", "domain"])
    if kind == "fingerprint":
        rec.fingerprint = m.fingerprint
        str(m), m._arti_type_
    elif kind == "dump":
        m.model_dump(), m.model_dump_json(), m.model_dump(mode="json")
        d = m.model_dump()
        for k in list(d):
            d[k] = None
        d.clear()
    elif kind == "copies":
        m.model_copy(), copy.copy(m), pickle.dumps(m)
    elif kind == "set":
        box = {m: 1}
        ctx.check(box[m] == 1 and m in {m, build(s)} and len({m, build(s)}) == 1, "set membership", m=m)
    elif kind == "update":
        f = [f for f in type(m).model_fields if f not in ("backend", "artifacts")]
        if f and s[0] == "M":
            f = rng.choice(f)
            n = m.model_copy(update={f: getattr(build(gen(rng, s[1])), f)})
            hash(n)
            ctx.check(n is not m, "a changed copy is the same object")
    elif kind == "threads":
        errors = []

        def work():
            try:
                for _ in range(3):
                    hash(m), m.fingerprint, repr(m), pickle.dumps(m), m.model_copy(), m == build(s)
                    copy.deepcopy(m)
            except BaseException as e:  # noqa: BLE001
                errors.append(e)

        if rng.random() < 0.3:
            ts = [threading.Thread(target=work) for _ in range(3)]
            [t.start() for t in ts], [t.join() for t in ts]
            ctx.check(not errors, "concurrent use failed", errors=errors)
            ctx.n["threaded"] += 1
    elif isinstance(m, Artifact):
        how = rng.randrange(4)
        if how == 0 and m.producer_output is None:
            with Graph(name=f"g{rng.randrange(3)}", path_tags={"t": "v"}, backend=MemoryBackend()) as g:
                g.artifacts.ns.x = m
                g.artifacts.y = m.model_copy()
            ctx.check(g.artifacts.ns.x.storage is not None, "assigned")
            g.dependencies, g.producers, g.fingerprint  # noqa: B018
        elif how == 1:
            ctx.check(type(m).cast(m) is m or type(m).cast(m) == m, "casting an artifact to its class")
        elif how == 2 and m.type == T.Int64() and isinstance(m.format, JSON):
            p = c05.One(x=m)
            q = p.out(Artifact(type=T.Int64(), format=JSON(), storage=LocalFile(path="o")))
            ctx.check(p.inputs["x"] == m and q.producer_output.producer == p, "producer of it")
            p.fingerprint, p.validate_outputs(1)
        else:
            discovered(ctx, rng, m)
    elif isinstance(m, Producer):
        a = Artifact(type=T.Int64(), format=JSON(), storage=LocalFile(path=f"o{rng.random()}"))
        b = Artifact(type=T.Int64(), format=JSON(), storage=LocalFile(path=f"p{rng.random()}"))
        recs = [Record(a), Record(b)]
        outs = m.out(a, b) if isinstance(m, c05.Two) else (m.out(a),)
        ctx.check(all(o.producer_output.producer == m for o in outs), "outputs")
        [r.check(ctx, "becoming an output") for r in recs]
        ctx.check(a.producer_output is None and b.producer_output is None, "out() changed the given artifact")
        m.inputs, m.validate_outputs(1, 2) if isinstance(m, c05.Two) else m.validate_outputs(1)
        m.compute_input_fingerprint(frozendict({name: () for name in m.inputs}))
    elif isinstance(m, Storage):
        discovered(ctx, rng, Artifact(type=T.Int64(), format=JSON(), storage=m))
    elif isinstance(m, Type):
        try:
            from arti.types.python import python_type_system

            python_type_system.to_system(m, hints={})
        except NotImplementedError:
            pass
    elif isinstance(m, View):
        View.from_annotation(int, mode="READ")
    elif isinstance(m, Graph):
        m.fingerprint, m.artifacts, m.path_tags  # noqa: B018
    ctx.n["uses"] += 1


def discovered(ctx, rng, a):
    """Storages are resolved (into new ones) and generate partitions."""
    storage = a.storage
    rec = Record(storage)
    if "{" not in (getattr(storage, "value", None) or ""):
        p = storage.generate_partition()
        rec2 = Record(p)
        ctx.check(p.storage == storage and storage.resolve(name="n") == storage, "a partition's storage")
        p.fingerprint, storage.generate_partition(partition_key=PartitionKey())
        rec2.check(ctx, "generating another partition")
    rec.check(ctx, "generating a partition")


# ------------------------------------------------------------------ equality
def compare(ctx, s, m, t, label):
    n = build(t)
    same = plain(s) == plain(t)
    if same and seeds(s) != seeds(t):
        ctx.n["undecided"] += 1
        return  # the descriptions may coincide or not
    ctx.check((m == n) == same, "equal content but unequal" if same else "different content but equal", a=s, b=t)
    ctx.check((n == m) == same and (m != n) == (not same), "equality is not symmetric or contradicts !=", a=s, b=t)
    if same:
        ctx.check(hash(m) == hash(n), "equal definitions hash differently", a=s, b=t)
        ctx.check(len({m, n}) == 1 and n in {m} and {m: 1}[n] == 1, "equal definitions aren't interchangeable", a=s, b=t)
        ctx.check(m.fingerprint == n.fingerprint, "equal definitions have different fingerprints", a=s, b=t)
        ctx.n["equal"] += 1
    else:
        ctx.check(len({m, n}) == 2 and n not in [m], "unequal definitions coincide in a set", a=s, b=t)
        ctx.n["unequal"] += 1
        ctx.seen(("unequal", label, c05.canonical(t)))


def foreign(ctx, rng, s, m):
    """Things of another class are never equal."""
    dumped = m.model_dump()
    others = [dumped, frozendict(dumped) if hashable(dumped) else dumped, tuple(dumped.values()), repr(m), None, m.fingerprint, type(m), Alien()]
    if isinstance(m, c05.Note):
        others.append(Twin(text=m.text))
        others.append(c05.Remark(text=m.text) if not isinstance(m, c05.Remark) else c05.Note(text=m.text))
    if type(m) is Artifact or type(m) is c05.Table:
        kw = {f: getattr(m, f) for f in Artifact.model_fields}
        others.append((c05.Table if type(m) is Artifact else Artifact)(**kw))
    if type(m) in (T.Int32, T.Int64, T.Int16):
        others += [c(nullable=m.nullable, description=m.description) for c in (T.Int8, T.Int16, T.Int32, T.Int64) if c is not type(m)]
    if type(m) is c05.One:
        others.append(c05.Uno(x=m.x, version=m.version, annotations=m.annotations))
    for o in others:
        ctx.check(not (m == o) and m != o and not (o == m), f"equal to a {type(o).__name__}", m=m, other=o)
        ctx.n["foreign"] += 1


def hashable(x):
    try:
        hash(frozendict(x))
        return True
    except TypeError:
        return False


# ------------------------------------------------------------------ copies
def duplicate(ctx, rng, m):
    chain = []
    x = m
    no_deep = isinstance(m, Graph)  # holds its backend, a connection (compared by identity)
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(["copy", "model_copy", "empty update"] + ([] if no_deep else ["deepcopy", "deep", "pickle", "pickle"]))
        chain.append(k)
        x = {
            "copy": lambda: copy.copy(x), "model_copy": lambda: x.model_copy(), "empty update": lambda: x.model_copy(update={}), "deepcopy": lambda: copy.deepcopy(x),
            "deep": lambda: x.model_copy(deep=True), "pickle": lambda: pickle.loads(pickle.dumps(x, rng.randrange(pickle.HIGHEST_PROTOCOL + 1))),
        }[k]()
        if rng.random() < 0.3:
            x.fingerprint  # noqa: B018
    return x, chain


def copies(ctx, rng, s, m, rec):
    x, chain = duplicate(ctx, rng, m)
    ctx.check(x == m and m == x and not (x != m), f"a copy ({chain}) is unequal", m=m, copy=x)
    ctx.check(hash(x) == rec.hash, f"a copy ({chain}) hashes differently", m=m)
    ctx.check(x.fingerprint == m.fingerprint, f"a copy ({chain}) has another fingerprint", m=m)
    ctx.check(shape(x) == rec.shape and type(x) is type(m), f"a copy ({chain}) differs", m=m, copy=x)
    ctx.check(x.model_fields_set == m.model_fields_set, f"a copy ({chain}) has other fields set", m=m)
    walk(ctx, x, f"copy {chain}")
    attack_fields(ctx, rng, x, m)
    ctx.check(hash(x) == rec.hash and shape(x) == rec.shape, f"a copy ({chain}) changed", m=m)
    ctx.n["copies"] += 1
    ctx.seen(("copy", type(m).__name__, tuple(chain), c05.canonical(s)))


# ------------------------------------------------------------------ rejections
KINDS = [("str", ("5", "")), ("int", (5, 0, -3)), ("float", (5.5,)), ("bytes", (b"5",)), ("none", (None,)), ("bool", (True, False)), ("list", ([1], [Alien()])), ("dict", ({1: 2}, {"a": Alien()})), ("tuple", ((1,), (Alien(),))), ("alien", (Alien(),)), ("class", (int, Alien))]


def kind_of(x):
    if x is None:
        return "none"
    for k, t in (("bool", bool), ("str", str), ("int", int), ("float", float), ("bytes", bytes)):
        if type(x) is t:
            return k
    return "other"


# kinds accepted by scalar fields beyond that of the generated value
ALSO = {("Csv", "level"): {"none", "int"}, ("Tsv", "level"): {"none", "int"}, ("Rich", "opt"): {"none", "int"}, ("StringLiteral", "value"): {"none", "str"},
        ("StringLiteralPartition", "value"): {"none", "str"}, ("Rich", "num"): {"int", "float"}}
for _k in ("LocalFilePartition", "GCSFilePartition", "StringLiteralPartition"):
    ALSO[(_k, "input_fingerprint")] = {"none", "int", "float", "str"}
for _k in ("Draft", "FinalDraft"):
    ALSO[(_k, "quiet")] = {"none", "int", "float", "str"}
ALSO[("StoragePartitionSnapshot", "content_fingerprint")] = {"int", "float", "str"}
for _k in ("Artifact", "Table", "Owned"):
    ALSO[(_k, "producer_output")] = {"none"}
MODELS = [lambda: SemVer(major=1, minor=0, patch=0), JSON, lambda: LocalFile(path="x"), T.Int64, lambda: c05.Note(text="n"), lambda: c05.Count(n=1)]


def rejections(ctx, rng, s, m):
    if s[0] != "M":
        return bad_types(ctx, rng)
    key, cls = s[1], type(m)
    kw = {f: getattr(m, f) for f in cls.model_fields}
    if cls is Graph:
        kw.pop("artifacts")
    for extra in ("unknown", "_private", "Type"):
        refused_make(ctx, lambda: cls(**{**kw, extra: 1}), f"{cls.__name__} with an unknown field")
    for f, info in cls.model_fields.items():
        if info.is_required():
            refused_make(ctx, lambda f=f: cls(**{k: x for k, x in kw.items() if k != f}), f"{cls.__name__} without {f}")
    for f in REG[key][1]:
        cur = getattr(m, f)
        fits = {kind_of(cur)} | ALSO.get((key, f), set())
        for kind, values in KINDS:
            if kind in fits or key in c05.VIEWS and f == "mode":
                continue
            if kind == "int" and isinstance(cur, float):
                continue
            if kind == "class" and f == "artifact_class":
                continue
            bad = rng.choice(values)
            if isinstance(cur, tuple) and kind == "tuple":
                bad = (Alien(),)
            if isinstance(m, Artifact) and bad == "":
                bad = "5"  # an empty iterable of annotations is fine
            refused_make(ctx, lambda f=f, bad=bad: cls(**{**kw, f: bad}), f"{key}.{f}={bad!r}")
        if key in c05.VIEWS and f == "mode":
            for bad in ("read", "", None, 1):
                refused_make(ctx, lambda f=f, bad=bad: cls(**{**kw, f: bad}), f"{key}.{f}={bad!r}")
        if isinstance(cur, (Model, tuple)) or f == "producer_output":
            wrong = rng.choice(MODELS)()
            family = {"type": Type, "format": Format, "storage": Storage, "annotations": Annotation, "statistics": Statistic, "version": Version, "inner": Annotation, "more": Annotation, "notes": Annotation}.get(f, Producer)
            if not isinstance(wrong, family):
                refused_make(ctx, lambda f=f: cls(**{**kw, f: (wrong,) if isinstance(cur, tuple) else wrong}), f"{key}.{f}={wrong!r}")
        elif isinstance(cur, Mapping) and f in ("by", "partition_key", "tags", "path_tags"):
            wrong = rng.choice([1, None, MODELS[0](), (), Alien()])
            refused_make(ctx, lambda f=f: cls(**{**kw, f: {"k": wrong}}), f"{key}.{f} of {wrong!r}")
            refused_make(ctx, lambda f=f: cls(**{**kw, f: {1: next(iter(cur.values()), "x")}}), f"{key}.{f} with a key of 1")


def bad_types(ctx, rng):
    alien = Alien()
    for what, fn in {
        "list element": lambda: T.List(element=int), "list without element": lambda: T.List(), "map key": lambda: T.Map(key=str, value=T.Int64()), "map value": lambda: T.Map(key=T.String(), value=None),
        "struct field": lambda: T.Struct(fields={"a": int}), "struct name": lambda: T.Struct(fields={1: T.Int64()}), "unknown": lambda: T.Int64(width=3), "nullable": lambda: T.Int64(nullable=1), "nullable str": lambda: T.Int64(nullable="yes"),
        "description": lambda: T.String(description=3), "precision": lambda: T.Timestamp(precision="minute"), "no precision": lambda: T.Timestamp(), "enum mixed": lambda: T.Enum(type=T.Int64(), items=frozenset({"a"})),
        "enum items": lambda: T.Enum(type=T.String(), items=[["a"]]), "alien": lambda: T.Int64(description=alien), "alien element": lambda: T.Set(element=alien),
        "partition_by": lambda: T.Collection(element=T.Struct(fields={"a": T.Int64()}), partition_by=("missing",)), "binary": lambda: T.Binary(byte_size="3"),
    }.items():
        refused_make(ctx, fn, f"type with a wrong {what}")


def refused_make(ctx, fn, what):
    try:
        r = fn()
    except Exception:
        ctx.n["rejections"] += 1
        return
    ctx.check(False, f"accepted: {what}", made=repr(r)[:300])


def unhashable(ctx, rng):
    """Content that can change is rejected when made, however deep it hides."""
    leaf = rng.choice([lambda: [], lambda: {}, lambda: set(), lambda: bytearray(b"x"), Alien, lambda: [1], lambda: {"a": 1}])
    wrap = rng.choice([lambda x: x, lambda x: (x,), lambda x: (1, (2, x)), lambda x: ((), (x, "a"))])
    bad = wrap(leaf())
    refused_make(ctx, lambda: Loose(data=bad), f"Loose(data={bad!r})")
    refused_make(ctx, lambda: Bag(items=(1, bad)), f"Bag(items=(1, {bad!r}))")
    refused_make(ctx, lambda: frozendict({"a": bad}), f"frozendict of {bad!r}")
    refused_make(ctx, lambda: frozendict({"a": frozendict(b=bad)}), f"frozendict of a frozendict of {bad!r}")
    refused_make(ctx, lambda: frozendict(a=bad), f"frozendict(a={bad!r})")
    good = rng.choice([1, "x", None, (), (1, (2, "x")), frozenset({1}), frozendict(a=1), frozendict(a=frozendict(b=(1,)))])
    a, b = Loose(data=good), Loose(data=copy.deepcopy(good))
    ctx.check(a == b and hash(a) == hash(b) and Bag(items=(good,)) == Bag(items=(copy.deepcopy(good),)), "equal content", good=good)
    ctx.n["unhashable"] += 1


# ------------------------------------------------------------------ frozendict
def mappings(ctx, rng):
    keys = [f"k{i}" for i in range(6)] + [1, (1, 2), None]
    src = {k: rng.choice([1, "x", None, (1,), frozendict(z=1)]) for k in rng.sample(keys, rng.randint(0, 5))}
    want = dict(src)
    items = list(src.items())
    rng.shuffle(items)
    forms = [frozendict(src), frozendict(dict(items)), frozendict(items), frozendict(frozendict(src)), frozendict((k, x) for k, x in items)]
    if all(isinstance(k, str) for k in src):
        forms.append(frozendict(**src))
    if len(src) > 1:
        k = items[0][0]
        forms.append(frozendict(dict(items[:1])) | dict(items[1:]))
        forms.append(dict(items[:1]) | frozendict(dict(items[1:])))
        forms.append(frozendict({**src, k: "other"}) | {k: src[k]})
    src["later"] = Alien()
    src.pop("k0", None)
    for d in forms:
        for e in [*forms, copy.copy(d), copy.deepcopy(d), pickle.loads(pickle.dumps(d))]:
            ctx.check(type(d) is frozendict and d == e and hash(d) == hash(e) and not (d != e) and len({d, e}) == 1, "equal frozendicts", a=d, b=e)
        ctx.check(d == want and want == d and dict(d) == want and len(d) == len(want), "a frozendict equals its content", d=d, want=want)
        attack_container(ctx, rng, "frozendict", d)
        ctx.check(dict(d) == want, "the frozendict changed", d=d, want=want)
        for k in want:
            ctx.check(d[k] == want[k] and k in d and d != frozendict({**want, k: "zz"}) and d != frozendict({j: x for j, x in want.items() if j != k}), "frozendict content", d=d)
        ctx.check("absent" not in d and d.get("absent", 5) == 5, "frozendict content")
    ctx.n["frozendicts"] += 1


# ------------------------------------------------------------------ other processes
_jobs: list = []
CHILD = """
import sys, pickle; sys.path.insert(0, P['here'])
import c05
R = []
for s, blob in P['jobs']:
    m, x = c05.build(s), pickle.loads(blob)
    R.append((x == m and m == x, hash(x) == hash(m), len({x, m}) == 1 and {m: 1}.get(x) == 1, x.fingerprint == m.fingerprint, int(m.fingerprint), repr(x) == repr(m), pickle.dumps(x)))
"""


def flush(ctx):
    if not _jobs:
        return
    got = in_child(CHILD, {"here": os.path.dirname(os.path.abspath(__file__)), "jobs": [(s, b) for s, _, b in _jobs]}, (ctx.n["children"] * 6151 + 11) % 4294967295)
    ctx.n["children"] += 1
    for (s, m, _), (eq, hs, member, fp, num, rep, blob) in zip(_jobs, got):
        ctx.check(eq, "unpickled in another process: unequal to an equal definition made there", spec=s)
        ctx.check(hs and member, "unpickled in another process: hashes unlike an equal definition made there", spec=s)
        ctx.check(fp and num == int(m.fingerprint), "unpickled in another process: another fingerprint", spec=s)
        ctx.check(rep or has_sets(s), "unpickled in another process: different content", spec=s)
        back = pickle.loads(blob)
        ctx.check(back == m and m == back and hash(back) == hash(m) and back in {m}, "pickled back from another process: unequal or hashing differently", spec=s)
        ctx.check(back.fingerprint == m.fingerprint, "pickled back from another process: another fingerprint", spec=s)
        ctx.n["cross_process"] += 1
    _jobs.clear()


def has_sets(s):
    return "frozenset" in repr(s)


def teardown(ctx):
    flush(ctx)


def case(ctx, rng):
    if rng.random() < 0.08:
        mappings(ctx, rng)
    if rng.random() < 0.08:
        unhashable(ctx, rng)
    key = rng.choice(c05.ROOTS)
    s = gen(rng, key)
    label = key if key != "TYPE" else s[1][0]
    m = build(s)
    ctx.seen(("root", label, c05.canonical(s)), {"spec": repr(s)[:300]} if len(ctx.samples) < 3 else None)
    rec = Record(m)
    backend = isinstance(m, Graph)
    fresh = None if backend else build(s, rng)
    if fresh is not None:
        rec.check(ctx, "just made", fresh)
    if rng.random() < 0.5:
        rec.fingerprint = m.fingerprint
    walk(ctx, m, label)
    other = build(gen(rng, key) if key != "TYPE" else s)
    attack_fields(ctx, rng, m, other)
    rec.check(ctx, "assigning fields", fresh)
    inner = list(containers(m, label))
    for path, x in rng.sample(inner, min(6, len(inner))):
        attack_container(ctx, rng, path, x)
    rec.check(ctx, "changing what it holds", fresh)
    mutable_sources(ctx, rng, s, m)
    for _ in range(2):
        use(ctx, rng, s, m, rec)
        rec.check(ctx, "using it", fresh)
    if fresh is not None:
        ctx.check(m.fingerprint == fresh.fingerprint, "equal definitions have different fingerprints", spec=s)
    copies(ctx, rng, s, m, rec)
    if not backend:
        cur = s
        for _ in range(4):
            t = mutate(rng, cur)
            compare(ctx, s, m, t, label)
            if rng.random() < 0.3:
                cur = t
        compare(ctx, s, m, s, label)
        foreign(ctx, rng, s, m)
        if rng.random() < 0.25:
            _jobs.append((s, m, pickle.dumps(m)))
            if len(_jobs) >= 60:
                flush(ctx)
    if rng.random() < 0.5:
        rejections(ctx, rng, s, m)
    rec.check(ctx, "at the end", fresh)
    if not backend:
        ctx.check(m == build(s), "at the end: unequal to a fresh definition", spec=s)


# ------------------------------------------------------------------ fixed scenarios
def abstract(ctx):
    for cls in (Annotation, Format, PartitionField, Producer, Storage, Type, Version, View, PythonBuiltin):
        for kw in ({}, {"name": "x"}):
            refused_make(ctx, lambda cls=cls, kw=kw: cls(**kw), f"an instance of the abstract {cls.__name__}")


def graphs(ctx):
    import random

    for seed in range(60):
        rng = random.Random(seed)
        d = ctx.tmpdir()
        backend = MemoryBackend()

        def make():
            with Graph(name="g", backend=backend, path_tags={"t": "v"}) as g:
                g.artifacts.a = 1
                g.artifacts.ns.b = Artifact(type=T.Int64(), format=JSON(), storage=LocalFile(path=str(d / "{graph_name}" / "{names}" / "{name}.json")), annotations=[c05.Note(text="t")])
                g.artifacts.c = c05.One(x=g.artifacts.a).out(Artifact(type=T.Int64(), format=JSON(), storage=LocalFile(path=str(d / "{graph_name}" / "{name}" / "{input_fingerprint}.json"))))
                g.artifacts.deep.er.e = c05.Two(x=g.artifacts.c, y=g.artifacts.ns.b).out(
                    Artifact(type=T.Int64(), format=JSON(), storage=LocalFile(path=str(d / "e{input_fingerprint}.json"))), Artifact(type=T.Int64(), format=JSON(), storage=StringLiteral())
                )[0]
            return g

        g, h = make(), make()
        recs = [Record(g)]
        arts = {k: g.artifacts for k in ("a", "c")}
        recs += [Record(g.artifacts.a), Record(g.artifacts.ns.b), Record(g.artifacts.c), Record(g.artifacts.deep.er.e), Record(g.artifacts.c.producer_output.producer)]
        g.write(5, artifact=g.artifacts.ns.b)
        snaps = [g.snapshot()]
        recs.append(Record(snaps[0]))

        def attack(x, path):
            def sets(fn, what):
                refused(ctx, fn, f"{what} on {path}")

            sets(lambda: setattr(x.artifacts, "new", 1), "a new artifact")
            sets(lambda: setattr(x.artifacts, "a", 2), "replacing an artifact")
            sets(lambda: x.artifacts.__setitem__("new", 1), "a new item")
            sets(lambda: setattr(x.artifacts.ns, "new", 1), "a new nested artifact")
            sets(lambda: setattr(x.artifacts.deep.er, "e", x.artifacts.a), "replacing a nested artifact")
            sets(lambda: delattr(x.artifacts, "a"), "deleting an artifact")
            sets(lambda: x.artifacts.__delitem__("a"), "deleting an item")
            sets(lambda: x.artifacts.update({"new": 1}), "update")
            sets(lambda: x.artifacts.pop("a"), "pop")
            sets(lambda: x.artifacts.clear(), "clear")
            sets(lambda: x.artifacts.setdefault("new", 1), "setdefault")
            sets(lambda: setattr(x.artifacts.absent, "new", 1), "a new namespace")

        def everything(what):
            for r in recs:
                r.check(ctx, what)
            ctx.check(g == h and h == g and hash(g) == hash(h) and g.fingerprint == h.fingerprint, f"{what}: no longer equal to an equal graph")

        steps = ["attack", "fields", "build", "edit", "snapshot", "copies", "open", "deps", "read", "tag"]
        for step in [*rng.sample(steps, len(steps)), *rng.choices(steps, k=4)]:
            if step == "attack":
                attack(g, "a closed graph")
                attack(snaps[-1].graph, "a snapshot's graph")
            elif step == "fields":
                attack_fields(ctx, rng, g, h)
                for s in snaps:
                    attack_fields(ctx, rng, s, snaps[0])
                for path, x in containers(g.artifacts.deep.er.e, "e"):
                    attack_container(ctx, rng, path, x)
            elif step == "build":
                s = rng.choice(snaps).build()
                snaps.append(s)
                recs.append(Record(s))
            elif step == "edit":
                g.write(rng.randrange(5), artifact=g.artifacts.ns.b)
            elif step == "snapshot":
                s = g.snapshot()
                snaps.append(s)
                recs.append(Record(s))
            elif step == "copies":
                for x in (g, *snaps[-2:]):
                    for dup in (copy.copy(x), x.model_copy(), x.model_copy(update={})):
                        ctx.check(dup == x and hash(dup) == hash(x) and dup.fingerprint == x.fingerprint, "a copy of a graph or snapshot differs")
                        attack(getattr(dup, "graph", dup), "a copy")
                        attack_fields(ctx, rng, dup, x)
                    dup = pickle.loads(pickle.dumps(x))
                    ctx.check(dup.fingerprint == x.fingerprint and dup.name == x.name and dup.artifacts == x.artifacts, "an unpickled graph or snapshot differs")
                    attack(getattr(dup, "graph", dup), "an unpickled copy")
            elif step == "open":
                try:
                    with Graph(name="other") as o:
                        o.artifacts.a = g.artifacts.a
                        o.artifacts.c = g.artifacts.c
                        attack(g, "a closed graph (while another one is open)")
                        o.artifacts.new = 3
                    ctx.check(g.artifacts.a.storage == h.artifacts.a.storage, "assigning to another graph changed the artifact")
                except ValueError:
                    pass
            elif step == "deps":
                g.dependencies, g.producers, g.producer_outputs, g.artifact_to_key  # noqa: B018
                for x in (g.dependencies, g.producer_outputs, g.artifact_to_key):
                    attack_container(ctx, rng, "graph", x)
            elif step == "read":
                s = rng.choice(snaps)
                s.read(s.artifacts.a, annotation=int)
            elif step == "tag":
                s = rng.choice(snaps)
                s.tag(f"t{rng.randrange(3)}", overwrite=True)
            everything(step)
            ctx.n["graph_steps"] += 1
        for i, s in enumerate(snaps):
            for t in snaps[:i]:
                same = s.graph == t.graph and s.id == t.id
                ctx.check(not same or (s == t and hash(s) == hash(t)), "equal snapshots are unequal")
        ctx.seen(("graph", seed))
        assert arts
        ctx.rmdir(d)


SCENARIOS = [abstract, graphs]
