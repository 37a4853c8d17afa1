"""C08: partition locations are a function of (key, input fingerprint), and discovery is the exact inverse.

The harness renders every partition's location itself (from its own template description, not the
library's), puts files there behind the library's back or through `io.write`, plants decoys, and compares
what discovery returns with its own model of what is stored.
"""
import datetime
import os

from arti import Artifact, Fingerprint, Graph, InputFingerprints, PartitionKey, io
from arti import types as T
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.partitions import DateField, Int8Field, Int16Field, Int32Field, Int64Field, NullField
from arti.storage.google.cloud.storage import GCSFile
from arti.storage.local import LocalFile
from arti.views import python as V

from c07 import produced_by
from core import Violation  # noqa: F401
from gcs import Emulator

PROP = "C08"
CASES = {"quick": 6000, "thorough": 60000}
SECONDS = {"quick": 100, "thorough": 1200}
EMU = None
INTS: dict = {}  # fingerprints to the integers they were made from


def setup(ctx):
    global EMU
    EMU = Emulator()


def teardown(ctx):
    EMU.stop()


def date(rng):
    return rng.choice([datetime.date(1000, 1, 1), datetime.date(9999, 12, 31), datetime.date(2020, 2, 29), datetime.date(2021, 1, 11), datetime.date(2021, 11, 1), datetime.date(1000, 1, 1) + datetime.timedelta(days=rng.randrange(3_000_000))])


def ints(bits):
    def gen(rng):
        return rng.choice([0, 1, -1, 7, 10, 15, 16, 2 ** (bits - 1) - 1, -(2 ** (bits - 1)), rng.randrange(-(2 ** (bits - 1)), 2 ** (bits - 1))])

    return gen


KINDS = {
    "Int8": (T.Int8, Int8Field, ints(8)),
    "Int16": (T.Int16, Int16Field, ints(16)),
    "Int32": (T.Int32, Int32Field, ints(32)),
    "Int64": (T.Int64, Int64Field, ints(64)),
    "Date": (T.Date, DateField, date),
    "Null": (T.Null, NullField, lambda rng: None),
}
NAMES = ["a", "b", "ab", "d", "date", "key", "i8", "value", "iso", "Y", "x_y", "name_", "A"]

# How a component is spelled in a path, and how its value is rendered there.
INT = {"{k.value}": str, "{k.hex}": hex, "{k.value:04}": lambda v: format(v, "04")}
DATE = {
    "{k.iso}": lambda v: v.isoformat(),
    "{k.value}": lambda v: str(v),
    "{k.Y}-{k.m:02}-{k.d:02}": lambda v: f"{v.year}-{v.month:02}-{v.day:02}",
    "{k.Y}/{k.m}/{k.d}": lambda v: f"{v.year}/{v.month}/{v.day}",
    "Y={k.Y}/m={k.m:02}/{k.d}": lambda v: f"Y={v.year}/m={v.month:02}/{v.day}",
    "{k.d}.{k.m}.{k.Y}": lambda v: f"{v.day}.{v.month}.{v.year}",
    "{k.Y}_{k.m:02}/{k.Y}_{k.d:02}": lambda v: f"{v.year}_{v.month:02}/{v.year}_{v.day:02}",
}
NULL = {"{k.value}": lambda v: "None"}


def default_spec(kind, k):
    if kind == "Date":
        return lambda v: f"{k}_Y={v.year}/{k}_m={v.month:02}/{k}_d={v.day:02}"
    if kind == "Null":
        return lambda v: f"{k}_value=None"
    return lambda v: f"{k}_value={v}"


# literal text -> a different text that the literal would match, were it taken as a pattern
LITERALS = {"lit": None, "[ab]": "a", "a*b": "axxb", "?": "q", "a b": None, "é✓": None, "x[!0]": "x1", "data[1]": "data1", "**": "y", "*": "z", "(p)": "p", "+.^$|": None, "%20": None, "x.y": "xzy", "[": None, "]": None, "a\\b": "ab", "$d": None, "~": None, "..x": None, "[a-z]": "m", "[[]": "["}
GCS_BAD = {"..x", "$d", "a\\b"}


class Slot:
    def __init__(self, rng, i, root, where):
        self.where, self.root = where, root
        self.names = tuple([*rng.choice([(), (), ("ns",), ("x", "y")]), f"{rng.choice(['art', 'art', 'part'])}{i}"])
        self.name = ".".join(self.names)
        self.fmt = rng.choice([JSON, Pickle])
        self.produced = rng.random() < 0.45
        n = rng.choice([0, 1, 1, 2, 2, 3])
        self.keys = dict(zip(rng.sample(NAMES, n), (rng.choice(list(KINDS)) for _ in range(n))))
        if n > 1 and rng.random() < 0.3:
            self.keys = dict.fromkeys(self.keys, rng.choice(list(KINDS)))
        extra = {"data": T.Int64()}
        self.type = T.Collection(element=T.Struct(fields={**{k: KINDS[v][0]() for k, v in self.keys.items()}, **extra}), partition_by=tuple(self.keys)) if n else T.List(element=T.Int64())
        self.fixed = {}  # key -> predicate on values
        parts = []  # (template, render(vals, fp), is_literal)
        if n and rng.random() < 0.3:
            fs = [(k, default_spec(v, k)) for k, v in self.keys.items()]
            parts.append(("{partition_key_spec}", lambda vals, fp: "/".join(f(vals[k]) for k, f in fs)))
            self.style = "default"
        else:
            self.style = []
            for k, kind in self.keys.items():
                parts.append(self.component(rng, k, kind))
        rng.shuffle(parts)
        for _ in range(rng.choice([0, 1, 1, 2])):
            lit = rng.choice([x for x in LITERALS if where == "local" or x not in GCS_BAD])
            parts.insert(rng.randrange(len(parts) + 1), (lit, lambda vals, fp, lit=lit: lit, lit))
        if self.produced:
            pre, post = rng.choice([("", ""), ("fp=", ""), ("", ".v")])
            parts.insert(rng.randrange(len(parts) + 1), (f"{pre}{{input_fingerprint}}{post}", lambda vals, fp: f"{pre}{fp}{post}"))
        # The artifact's own names keep it apart from its siblings
        parts.insert(rng.choice([0, 0, len(parts)]), ("{names}", lambda vals, fp: "/".join(self.names)))
        ext = {JSON: ".json", Pickle: ".pickle"}[self.fmt]
        tail = rng.choice(["{name}{extension}", "part{extension}", "{name}"])
        parts.append((tail, lambda vals, fp: tail.replace("{name}", self.names[-1]).replace("{extension}", ext)))
        self.parts = parts
        self.template = "/".join(p[0] for p in parts)
        path = f"{root}/{self.template}" if where == "local" else f"{root.name}/{self.template}"
        self.storage = LocalFile(path=path) if where == "local" else GCSFile(bucket="bkt", path=path)
        self.stored: dict = {}  # (vals tuple, fp) -> (PartitionKey, Fingerprint|None, path)

    def component(self, rng, k, kind):
        pre = rng.choice(["", "", f"{k}=", "p_"])
        if kind == "Date" and rng.random() < 0.3:
            y, m, d = rng.choice([2020, 1970]), rng.choice([2, 11]), rng.choice([3, 28])
            which = rng.choice(["Y", "m", "d", "Ym", "iso"])
            self.style.append(("fixed", which))
            if which == "iso":
                self.fixed[k] = lambda rng: datetime.date(y, m, d)
                return (f"{pre}{{{k}.iso[{y}-{m:02}-{d:02}]}}", lambda vals, fp: f"{pre}{vals[k].isoformat()}")
            self.fixed[k] = lambda rng: (v := date(rng)).replace(year=y if "Y" in which else v.year, month=m if "m" in which else v.month, day=d if "d" in which else min(v.day, 28))
            t = "/".join([f"{{{k}.Y[{y}]}}" if "Y" in which else f"{{{k}.Y}}", f"{{{k}.m[{m}]:02}}" if "m" in which else f"{{{k}.m:02}}", f"{{{k}.d[{d}]}}" if "d" in which else f"{{{k}.d}}"])
            return (pre + t, lambda vals, fp: f"{pre}{vals[k].year}/{vals[k].month:02}/{vals[k].day}")
        if kind.startswith("Int") and rng.random() < 0.15:
            v = rng.choice([5, 16, 0, 100])
            self.fixed[k] = lambda rng: v
            self.style.append("fixed int")
            if rng.random() < 0.5:
                return (f"{pre}{{{k}.value[{v}]}}", lambda vals, fp: f"{pre}{vals[k]}")
            return (f"{pre}{{{k}.hex[{hex(v)}]}}", lambda vals, fp: f"{pre}{hex(vals[k])}")
        table = {"Date": DATE, "Null": NULL}.get(kind, INT)
        spec = rng.choice(list(table))
        self.style.append(spec)
        return (pre + spec.replace("k.", k + "."), lambda vals, fp: pre + table[spec](vals[k]))

    def bind(self, g):
        art = Artifact(type=self.type, format=self.fmt(), storage=self.storage)
        g.artifacts[self.name] = produced_by("Collection" if self.keys else "List", self.type, self.fmt(), self.storage) if self.produced else art
        self.art = g.artifacts[self.name]

    def path(self, vals, fp):
        p = "/".join(render(vals, fp) for _, render, *_ in self.parts)
        return f"{self.root}/{p}" if self.where == "local" else f"{self.root.name}/{p}"

    def decoy_paths(self, rng, vals, fp):
        good = self.path(vals, fp)
        out = [good + rng.choice([".bak", "~", "x"]), good[: good.rindex("/")] + "/x" + good[good.rindex("/") + 1 :], good[: good.rindex("/") + 1] + "sub/" + good[good.rindex("/") + 1 :]]
        # the same with a literal replaced by what it would match as a pattern
        for j, part in enumerate(self.parts):
            if len(part) == 3 and LITERALS[part[2]]:
                segs = [LITERALS[part[2]] if i == j else p[1](vals, fp) for i, p in enumerate(self.parts)]
                out += [(f"{self.root}/" if self.where == "local" else f"{self.root.name}/") + "/".join(segs)] * 2
        return out


def put(where, path, data):
    if where == "local":
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)
    else:
        EMU.put(path, data)


def delete(where, path):
    os.unlink(path) if where == "local" else EMU.delete(path)


def fingerprint(rng):
    i = rng.choice([0, 1, -1, 2**63 - 1, -(2**63), 12, 123, rng.getrandbits(63) - 2**62])
    INTS[fp := Fingerprint.from_int(i)] = i
    return fp


def unfit(rng, s, field):
    """Keys that do not fit the partitioning of the slot."""
    out = [PartitionKey(field | {"extra": Int64Field(value=1)})]
    if field:
        out.append(PartitionKey())
        k = rng.choice(list(field))
        out.append(PartitionKey({n: v for n, v in field.items() if n != k}))
        out.append(PartitionKey({("other" if n == k else n): v for n, v in field.items()}))
        v = field[k].value
        others = [c for n, (_, c, _) in KINDS.items() if n != s.keys[k]]
        for c in rng.sample(others, len(others)):
            ok = {DateField: lambda: c(value=v if isinstance(v, datetime.date) else datetime.date(2020, 1, 1)), NullField: c}.get(c, lambda: c(value=v if isinstance(v, int) else 1))
            out.append(PartitionKey(field | {k: ok()}))
    return out


# Templates that leave a date open, with a file that matches them
PARTIAL = [("{k.Y}", "2020"), ("{k.Y}-{k.m:02}", "2020-05"), ("{k.Y}/{k.d}", "2020/5"), ("{k.m}-{k.d}", "5-7"), ("{k.d}", "1"), ("{k.m:02}", "01"), ("{k.Y[2020]}/{k.m}", "2020/11"), ("{k.Y[1970]}-{k.d:02}", "1970-03")]


def incomplete(ctx, rng):
    """A template which does not determine the key of a path: nothing may be reported under a guessed one."""
    root, where = ctx.tmpdir(), rng.choice(["local", "local", "gcs"])
    fields = {"k": T.Date()}
    spec, found = rng.choice(PARTIAL)
    if rng.random() < 0.5:
        fields["j"] = rng.choice([T.Int64, T.Int8])()
        if rng.random() < 0.5:  # the whole of one key is missing
            spec, found = rng.choice([("{j.value}", "12"), ("{k.iso}", "2020-02-29"), ("{k.Y}-{k.m}-{k.d}", "2020-2-29")])
        else:
            spec, found = spec + "/{j.value}", found + "/4"
    typ = T.Collection(element=T.Struct(fields=fields), partition_by=tuple(fields))
    base = f"{root}" if where == "local" else root.name
    path = f"{base}/{spec}.json"
    with Graph(name="g", backend=MemoryBackend()) as g:
        g.artifacts.a = Artifact(type=typ, format=JSON(), storage=LocalFile(path=path) if where == "local" else GCSFile(bucket="bkt", path=path))
    ctx.check(g.artifacts.a.storage.discover_partitions() == (), "partitions were discovered in an empty folder")
    put(where, f"{base}/{found}.json", b"[]")
    try:
        got = g.artifacts.a.storage.discover_partitions()
    except (ValueError, NotImplementedError, TypeError, LookupError):
        got = ()
    ctx.check(got == (), f"{found} was discovered with {spec!r}, which does not determine the key", got=got)
    ctx.n["incomplete_templates"] += 1
    ctx.rmdir(root)


def case(ctx, rng):
    if rng.random() < 0.08:
        return incomplete(ctx, rng)
    root = ctx.tmpdir()
    where = rng.choice(["local", "local", "local", "gcs"])
    slots = [Slot(rng, i, root, where) for i in range(rng.choice([1, 2, 3]))]
    with Graph(name=rng.choice(["g", "G1", "g[1]"]), backend=MemoryBackend()) as g:
        for s in slots:
            s.bind(g)

    used = set()

    def discover(s, fps=None):
        got = s.art.storage.discover_partitions() if fps is None else s.art.storage.discover_partitions(fps)
        ctx.check(isinstance(got, tuple), "discovery does not return a tuple")
        return got

    def judge(s, fps=None, requested=None):
        snaps = discover(s, fps)
        got = sorted(((repr(p.partition_key), p.input_fingerprint, p.storage_partition.path) for p in snaps), key=repr)
        if fps is None:
            want = list(s.stored.values()) if not s.produced else []
        else:
            want = [e for e in s.stored.values() if requested.get(e[0]) == e[1]]
        want_ = sorted(((repr(k), fp, path) for k, fp, path, _ in want), key=repr)
        a = [(p.partition_key, p.input_fingerprint, p.storage_partition.path) for p in snaps]
        b = [(k, f, x) for k, f, x, _ in want]
        ctx.check(len(a) == len(b) and all(x in b for x in a) and all(x in a for x in b), f"discovery in {where} of {s.template!r}", got=got, want=want_)
        for p in snaps:
            for name, field in p.partition_key.items():
                want_cls = KINDS[s.keys[name]][1]
                ctx.check(type(field) is want_cls, f"{name} has field class {type(field).__name__}, want {want_cls.__name__}")
            ctx.check(p.storage_partition.storage == s.art.storage, "the partition belongs to another storage")
            ctx.n["partitions_discovered"] += 1

    for _ in range(rng.choice([1, 3, 5])):
        s = rng.choice(slots)
        vals = {k: (s.fixed[k] if k in s.fixed else KINDS[v][2])(rng) for k, v in s.keys.items()}
        if s.stored and rng.random() < 0.3:
            vals = rng.choice(list(s.stored))[0]
            vals = dict(zip(s.keys, vals))
        fp = None
        if s.produced:
            fp = rng.choice([e[1] for e in s.stored.values()]) if s.stored and rng.random() < 0.4 else fingerprint(rng)
        field = {k: (NullField() if v is None else KINDS[s.keys[k]][1](value=v)) for k, v in vals.items()}
        items = list(field.items())
        key = PartitionKey(items)
        rng.shuffle(items)
        part = s.art.storage.generate_partition(input_fingerprint=fp, partition_key=key)
        again = s.art.storage.generate_partition(input_fingerprint=fp, partition_key=PartitionKey(items))
        if rng.random() < 0.2:
            bad = rng.choice(unfit(rng, s, dict(items)))
            ctx.raises((ValueError, LookupError), lambda: s.art.storage.generate_partition(input_fingerprint=fp, partition_key=bad), f"a partition keyed by {bad} in storage partitioned by {s.keys}")
            ctx.n["unfit_keys"] += 1
        want = s.path(vals, None if fp is None else INTS[fp])
        ctx.check(part.path == want, f"location of {key} in {s.template!r}", got=part.path, want=want)
        ctx.check(part == again and part.path == again.path, "the same key has two locations")
        if where == "gcs":
            ctx.check(part.bucket == "bkt" and part.qualified_path == f"bkt/{want}", "bucket")
        ident = (tuple(vals.values()), fp)
        for other in slots:
            for i, e in other.stored.items():
                ctx.check(e[2] != part.path or (other is s and i == ident), "two partitions share a location", path=part.path)
        how = rng.choice(["raw", "io", "delete"])
        if how == "delete" and ident in s.stored:
            delete(where, want)
            del s.stored[ident]
        elif how == "io":
            value = [{**vals, "data": rng.getrandbits(40)}] if s.keys else [rng.getrandbits(40)]
            if s.fmt is JSON and s.keys:
                value = [{k: (x.isoformat() if isinstance(x, datetime.date) else x) for k, x in r.items()} for r in value]
            snap = io.write(value, type_=s.type, format=s.art.format, storage_partition=part, view=V.List(mode="WRITE", artifact_class=Artifact, type=s.type))
            ctx.check(snap.storage_partition == part, "writing moved the partition")
            s.stored[ident] = (key, fp, want, None)
        else:
            data = rng.randbytes(rng.choice([0, 1, 30]) if where == "local" else 5)
            put(where, want, data)
            s.stored[ident] = (key, fp, want, data)
        if rng.random() < 0.5:
            used |= {e[2] for o in slots for e in o.stored.values()}
            for d in rng.sample(ds := s.decoy_paths(rng, vals, None if fp is None else INTS[fp]), rng.randint(1, len(ds))):
                # a decoy must not itself be a location of some partition, nor be in the way of one
                if any(u == d or u.startswith(d + "/") or d.startswith(u + "/") for u in used):
                    continue
                used.add(d)
                put(where, d, b"decoy")
                ctx.n["decoys"] += 1
        ctx.seen((where, s.template, ident), {"where": where, "template": s.template, "location": want, "how": how} if len(ctx.samples) < 4 else None)
        for o in slots:
            judge(o)
            known = {e[0] for e in o.stored.values()}
            if o.produced and known:
                req = {k: rng.choice([e[1] for e in o.stored.values() if e[0] == k] + [fingerprint(rng)]) for k in rng.sample(sorted(known, key=repr), rng.randint(1, len(known)))}
                judge(o, InputFingerprints(req), req)
                ctx.n["filtered_discoveries"] += 1
    ctx.rmdir(root)
