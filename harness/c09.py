"""C09: content fingerprints against the bytes actually stored.

Every observation (a partition's own fingerprint, its snapshot, discovery, the snapshot returned by a
write, a graph snapshot, another process) is checked against one table per storage kind: bytes <-> fingerprint
must stay a bijection over everything ever observed.
"""
import os
import shutil

from arti import Artifact, Fingerprint, Graph, PartitionKey, io
from arti import types as T
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.partitions import Int64Field
from arti.storage.google.cloud.storage import GCSFile, GCSFilePartition
from arti.storage.literal import StringLiteral, StringLiteralPartition
from arti.storage.local import LocalFile, LocalFilePartition
from arti.views import python as V

from core import in_child, stable
from gcs import Emulator

PROP = "C09"
CASES = {"quick": 4000, "thorough": 40000}
SECONDS = {"quick": 100, "thorough": 1200}
EMU = None
TABLE: dict = {}  # (storage kind, bytes) -> fingerprint, over the whole process
BACK: dict = {}
MIB = 1024 * 1024


def setup(ctx):
    global EMU
    EMU = Emulator()


def teardown(ctx):
    EMU.stop()


def observe(ctx, kind, data, fp, how):
    ctx.check(isinstance(fp, Fingerprint) and not fp.is_identity, "not a fingerprint", fp=fp)
    a = TABLE.setdefault((kind, data), fp)
    ctx.check(a == fp, f"equal bytes in {kind} have two content fingerprints ({how})", size=len(data))
    b = BACK.setdefault((kind, fp), data)
    # Objects composed from others only have a 32 bit checksum, which may well collide.
    ctx.check(b == data or kind == "gcs-composite" and len(BACK) > 500, f"different bytes in {kind} have one content fingerprint ({how})", sizes=(len(b), len(data)), a=b[:40], b=data[:40])
    ctx.n[f"observations_{kind}"] += 1


def content(rng, big=True):
    n = rng.random()
    if n < 0.06 and big:
        size = rng.choice([MIB - 1, MIB, MIB + 1, 2 * MIB, 2 * MIB + 5])
        seed = rng.randbytes(64)
        return (seed * (size // 64 + 1))[:size]
    if n < 0.3:
        return rng.choice([b"a", b"ab", b"ba", b"a\n", b"a\r\n", b"[1]", b"[1] ", b"\x00", b"\x00\x00", b"0", b"1", b"\xff\xfe", b"A"])
    return rng.randbytes(rng.choice([1, 2, 8, 100, 5000]))


def mutate(rng, data):
    """Other bytes, of the same size more often than not."""
    if not data:
        return b"\x00"
    b = bytearray(data)
    how = rng.choice(["bit", "bit", "swap", "last", "first", "grow", "shrink", "other"])
    i = rng.randrange(len(b))
    if how == "swap" and len(b) > 1:
        j = rng.randrange(len(b))
        b[i], b[j] = b[j], b[i]
    elif how == "last":
        b[-1] ^= 1 << rng.randrange(8)
    elif how == "first":
        b[0] ^= 1
    elif how == "grow":
        b += rng.choice([b"\x00", b"\n", b[-1:], b" "])
    elif how == "shrink" and len(b) > 1:
        b = b[:-1]
    elif how == "other":
        return content(rng, big=False)
    else:
        b[i] ^= 1 << rng.randrange(8)
    return bytes(b)


class File:
    """One partition, the bytes that are there now (None: nothing), and how to reach them raw."""

    def __init__(self, kind, part):
        self.kind, self.part, self.data = kind, part, None

    def put(self, data):
        if self.kind == "local":
            os.makedirs(os.path.dirname(self.part.path), exist_ok=True)
            with open(self.part.path, "wb") as f:
                f.write(data)
        else:
            EMU.put(self.part.path, data, bucket=self.part.bucket)
        self.data = data

    def delete(self):
        if self.kind == "local":
            os.unlink(self.part.path)
        else:
            EMU.delete(self.part.path, bucket=self.part.bucket)
        self.data = None

    def raw(self):
        if self.kind == "local":
            with open(self.part.path, "rb") as f:
                return f.read()
        return EMU.get(self.part.path, bucket=self.part.bucket)


def case(ctx, rng):
    if rng.random() < 0.12:
        return literals(ctx, rng)
    root = ctx.tmpdir()
    kind = rng.choice(["local", "local", "gcs"])
    composite = kind == "gcs" and rng.random() < 0.3
    label = "gcs-composite" if composite else kind
    part_t = T.Collection(element=T.Struct(fields={"k": T.Int64(), "v": T.Int64()}), partition_by=("k",))
    fmt = rng.choice([JSON, Pickle])
    with Graph(name="g", backend=MemoryBackend()) as g:
        for name, type_ in (("one", T.List(element=T.Int64())), ("two", T.List(element=T.Int64())), ("parts", part_t)):
            tail = "{names}/{partition_key_spec}/{name}{extension}"
            st = LocalFile(path=f"{root}/{tail}") if kind == "local" else GCSFile(bucket=rng.choice(["bkt", "other"]) if name != "parts" else "bkt", path=f"{root.name}/{'composite/' if composite else ''}{tail}")
            g.artifacts[name] = Artifact(type=type_, format=fmt(), storage=st)
    files = {n: File(kind, g.artifacts[n].storage.generate_partition()) for n in ("one", "two")}
    for k in range(rng.choice([1, 3])):
        files[f"p{k}"] = File(kind, g.artifacts.parts.storage.generate_partition(partition_key=PartitionKey(k=Int64Field(value=k))))

    def look(f, name):
        if f.data is None:
            ctx.raises(FileNotFoundError, f.part.compute_content_fingerprint, "fingerprint of unwritten data")
            ctx.raises(FileNotFoundError, f.part.snapshot, "snapshot of unwritten data")
            ctx.n["unwritten"] += 1
            return
        how = rng.choice(["direct", "direct", "snapshot", "discover", "graph"])
        if how == "direct":
            fp = f.part.compute_content_fingerprint()
        elif how == "snapshot":
            s = f.part.snapshot()
            ctx.check(s.storage_partition == f.part, "the snapshot is of another partition")
            fp = s.content_fingerprint
        else:
            art = g.artifacts.parts if name.startswith("p") else g.artifacts[name]
            if how == "graph" and all(x.data is not None for x in files.values()):
                snap = g.snapshot()
                with g.backend.connect() as conn:
                    found = conn.read_snapshot_partitions(snap, "parts" if name.startswith("p") else name, art)
            else:
                found = art.storage.discover_partitions()
            fps = [p.content_fingerprint for p in found if p.partition_key == f.part.partition_key]
            ctx.check(len(fps) == 1, f"a stored partition was found {len(fps)} times", how=how)
            fp = fps[0]
        observe(ctx, label, f.data, fp, how)

    for step in range(rng.choice([3, 6, 10])):
        name = rng.choice(list(files))
        f = files[name]
        op = rng.choice(["put", "put", "mutate", "mutate", "stealth", "same", "copy", "delete", "write", "write_same"])
        if op == "put" or f.data is None and op in ("mutate", "stealth", "same", "delete"):
            f.put(content(rng))
        elif op == "mutate":
            f.put(mutate(rng, f.data))
        elif op == "same":
            f.put(f.data)
        elif op == "stealth":  # same size, and (locally) same modification time
            b = bytearray(f.data or b"x")
            b[rng.randrange(len(b))] ^= 1
            if kind == "local":
                st = os.stat(f.part.path)
                f.put(bytes(b))
                os.utime(f.part.path, ns=(st.st_atime_ns, st.st_mtime_ns))
            else:
                f.put(bytes(b))
        elif op == "copy":
            other = rng.choice(list(files.values()))
            if other.data is not None:
                f.put(other.data)
        elif op == "delete":
            f.delete()
        else:
            art = g.artifacts.parts if name.startswith("p") else g.artifacts[name]
            value = [rng.randrange(3) for _ in range(rng.choice([1, 4]))] if not name.startswith("p") else [{"k": int(name[1:]), "v": rng.randrange(3)}]
            snap = io.write(value, type_=art.type, format=art.format, storage_partition=f.part, view=V.List(mode="WRITE", artifact_class=Artifact, type=art.type))
            f.data = f.raw()
            observe(ctx, label, f.data, snap.content_fingerprint, "write")
            if op == "write_same":
                again = io.write(value, type_=art.type, format=art.format, storage_partition=f.part, view=V.List(mode="WRITE", artifact_class=Artifact, type=art.type))
                ctx.check(again.content_fingerprint == snap.content_fingerprint, "rewriting identical data changed the content fingerprint")
        ctx.seen((label, name[0], op, step, len(f.data or b"") if f.data is not None else -1, stable(f.data)), {"storage": kind, "op": op, "bytes": len(f.data or b"")} if len(ctx.samples) < 3 else None)
        ctx.n[f"op_{op}"] += 1
        look(f, name)
        for n, x in files.items():
            if rng.random() < 0.5:
                look(x, n)
    if kind == "local" and rng.random() < 0.02:
        have = [f for f in files.values() if f.data is not None]
        fps = in_child("R=[str(p.compute_content_fingerprint()) for p in P]", [f.part for f in have], hashseed=rng.randrange(1000))
        for f, fp in zip(have, fps):
            ctx.check(str(f.part.compute_content_fingerprint()) == fp, "another process computes another content fingerprint")
            ctx.n["other_process"] += 1
    if kind == "local":
        shutil.rmtree(root, ignore_errors=True)
    ctx.rmdir(root)


TEXTS = ["", "1", "1 ", "01", "null", "[]", "é", "e\u0301", "{x}", "a" * 3000, "a" * 3001, '"1"', "\n", "\r\n"]


def literals(ctx, rng):
    for _ in range(rng.choice([2, 5])):
        text = rng.choice(TEXTS) if rng.random() < 0.5 else f"{rng.getrandbits(rng.choice([3, 60])):x}"
        with Graph(name=rng.choice(["g", "h"])) as g:
            g.artifacts[rng.choice(["a", "b.c"])] = art = Artifact(type=T.Int64(), format=JSON(), storage=StringLiteral(value=text))
            g.artifacts.empty = Artifact(type=T.Int64(), format=JSON(), storage=StringLiteral())
        (art,) = (a for k, a in g.artifacts.walk() if k != "empty")
        (found,) = art.storage.discover_partitions()
        for how, fp in (("discover", found.content_fingerprint), ("direct", found.storage_partition.compute_content_fingerprint()), ("snapshot", found.storage_partition.snapshot().content_fingerprint)):
            observe(ctx, "literal", text.encode(), fp, how)
        part = g.artifacts.empty.storage.generate_partition()
        ctx.raises(FileNotFoundError, part.compute_content_fingerprint, "fingerprint of an unwritten literal")
        ctx.raises(FileNotFoundError, part.snapshot, "snapshot of an unwritten literal")
        ctx.eq(g.artifacts.empty.storage.discover_partitions(), (), "discovery of an unwritten literal")
        value = rng.randrange(50)
        snap = io.write(value, type_=T.Int64(), format=JSON(), storage_partition=part, view=V.Int(mode="WRITE", artifact_class=Artifact, type=T.Int64()))
        observe(ctx, "literal", str(value).encode(), snap.content_fingerprint, "write")
        ctx.raises(FileNotFoundError, part.compute_content_fingerprint, "the unwritten literal partition after writing another one")
        ctx.seen(("literal", text, value))


def missing_kinds(ctx):
    """Data that is not there, for every kind of partition made by hand."""
    root = ctx.tmpdir()
    for p in (
        LocalFilePartition(path=f"{root}/none", storage=LocalFile()),
        LocalFilePartition(path=f"{root}/no/dir/none", storage=LocalFile()),
        GCSFilePartition(bucket="bkt", path="no/thing", storage=GCSFile(bucket="bkt")),
        GCSFilePartition(bucket="nobucket", path="no/thing", storage=GCSFile(bucket="nobucket")),
        StringLiteralPartition(id="x", storage=StringLiteral()),
    ):
        ctx.raises(FileNotFoundError, p.compute_content_fingerprint, f"fingerprint of missing data in {type(p).__name__}")
        ctx.n["unwritten"] += 1
    ctx.rmdir(root)


def gcs_listings(ctx):
    """Changes made by others are seen even if a listing of the surroundings was made before."""
    parts_t = T.Collection(element=T.Struct(fields={"k": T.Int64(), "v": T.Int64()}), partition_by=("k",))
    with Graph(name="g") as g:
        g.artifacts.p = Artifact(type=parts_t, format=JSON(), storage=GCSFile(bucket="bkt", path="lst/{k.value}/p.json"))
        g.artifacts.a = Artifact(type=T.Int64(), format=JSON(), storage=GCSFile(bucket="bkt", path="lst/1/a.json"))
    a, p = g.artifacts.a.storage, g.artifacts.p.storage
    for i in range(20):
        EMU.put("lst/1/a.json", data := b"%d" % (10 ** (i % 7) + i))
        EMU.put(f"lst/{i % 3}/p.json", data)
        p.discover_partitions()
        observe(ctx, "gcs", data, a.generate_partition().compute_content_fingerprint(), "after a listing")
        ctx.eq(g.read(g.artifacts.a, annotation=int), int(data), "read after a listing")
        EMU.put("lst/1/a.json", data2 := data + b"7")
        observe(ctx, "gcs", data2, a.generate_partition().compute_content_fingerprint(), "after a listing")
        ctx.eq(g.read(g.artifacts.a, annotation=int), int(data2), "read after a listing")
        EMU.delete("lst/1/a.json")
        p.discover_partitions()
        ctx.eq(a.discover_partitions(), (), "discovery of deleted data")
        ctx.raises(FileNotFoundError, a.generate_partition().compute_content_fingerprint, "fingerprint of deleted data")


SCENARIOS = [missing_kinds, gcs_listings]
