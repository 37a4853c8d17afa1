"""C10: random histories of backend operations against a model of plain sets and dictionaries."""
import os

from arti import Artifact, Fingerprint, Graph, GraphSnapshot, InputFingerprints, PartitionKey, StoragePartitionSnapshot
from arti import types as T
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.partitions import Int64Field
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile

from c07 import produced_by

PROP = "C10"
CASES = {"quick": 4000, "thorough": 40000}
SECONDS = {"quick": 100, "thorough": 1200}

PART = T.Collection(element=T.Struct(fields={"k": T.Int64(), "v": T.Int64()}), partition_by=("k",))
PLAIN = T.List(element=T.Int64())


class Model:
    """What one backend must contain."""

    def __init__(self):
        self.parts: dict = {}  # storage -> set
        self.linked: dict = {}  # (snapshot, key) -> set
        self.graphs: dict = {}
        self.snaps: dict = {}
        self.tags: dict = {}


def case(ctx, rng):
    root = ctx.tmpdir()
    backends = [(MemoryBackend(), Model()) for _ in range(rng.choice([1, 2, 2, 3]))]
    tail = "{names}/{partition_key_spec}/{input_fingerprint}/{name}{extension}"
    graphs = []
    for gi in range(rng.choice([1, 2, 3])):
        with Graph(name=rng.choice(["g", "g", "h"]), path_tags={"t": str(gi % 2)} if rng.random() < 0.5 else {}, backend=rng.choice(backends)[0]) as g:
            for name, type_, produced, where in rng.sample(
                [("raw", PLAIN, False, "local"), ("rawp", PART, False, "local"), ("out", PLAIN, True, "local"), ("outp", PART, True, "local"), ("lit", PLAIN, False, "literal"), ("olit", PART, True, "literal"), ("n.raw", PLAIN, False, "local")],
                rng.choice([2, 4, 7]),
            ):
                st = LocalFile(path=f"{root}/{{graph_name}}/{{path_tags}}/{tail}") if where == "local" else StringLiteral(**({} if produced else {"value": f"[{gi}]"}))
                g.artifacts[name] = produced_by("Collection" if type_ is PART else "List", type_, JSON(), st) if produced else Artifact(type=type_, format=JSON(), storage=st)
        graphs.append(g)
    arts = [(key, art) for g in graphs for key, art in g.artifacts.walk()]
    conns = []
    for b, m in backends:
        for _ in range(rng.choice([1, 2])):
            conns.append((b, m))
    files: dict = {}  # (storage) -> {path: snapshot}

    def some_partition(art):
        ifp = Fingerprint.from_int(rng.choice([1, 2, -3, 2**62])) if art.producer_output is not None else None
        key = PartitionKey(k=Int64Field(value=rng.randrange(3))) if art.type is PART or art.type == PART else PartitionKey()
        return art.storage.generate_partition(input_fingerprint=ifp, partition_key=key)

    def fabricated(art):
        return StoragePartitionSnapshot(content_fingerprint=Fingerprint.from_int(rng.randrange(1, 4)), storage_partition=some_partition(art))

    def exists(art, req=None):
        """What is in the storage itself (Local files only)."""
        if isinstance(art.storage, StringLiteral):
            return {art.storage.generate_partition().snapshot()} if art.storage.value is not None else set()
        out = set()
        for path, (st, part) in files.items():
            if st == art.storage and os.path.exists(path):
                if art.producer_output is None or (req is not None and req.get(part.partition_key) == part.input_fingerprint):
                    out.add(part.snapshot())
        return out

    def unique(got, what):
        ctx.check(isinstance(got, tuple) and len(set(got)) == len(got), f"{what}: a recorded partition is reported more than once", got=got)
        return set(got)

    open_conns: dict = {}

    def with_conn(i, fn):
        """Through a fresh connection, a nested one, one that stays open, or a copy of the backend."""
        b, _ = conns[i]
        how = rng.choice(["fresh", "open", "nested", "copy"])
        if how == "open":
            if i not in open_conns:
                cm = b.connect()
                open_conns[i] = (cm, cm.__enter__())
            return fn(open_conns[i][1])
        with (b.model_copy() if how == "copy" else b).connect() as c:
            if how == "nested":
                with c.connect() as c2:
                    return fn(c2)
            return fn(c)

    def check_linked(i, snap, key, art):
        m = conns[i][1]
        got = with_conn(i, lambda c: c.read_snapshot_partitions(snap, key, art))
        ctx.check(unique(got, "snapshot partitions") == m.linked.get((snap, key), set()), f"partitions linked to a snapshot under {key!r}", got=len(got), want=len(m.linked.get((snap, key), set())))

    snapshots: list = []
    ops = []
    for _ in range(rng.choice([6, 12, 20])):
        i = rng.randrange(len(conns))
        b, m = conns[i]
        key, art = rng.choice(arts)
        op = rng.choice(["write_parts", "write_parts", "read_parts", "read_parts", "file", "graph", "snapshot", "snapshot", "link", "link_both", "tag", "take", "read_tag", "write"])
        ops.append(op)
        if op == "write_parts":
            ps = tuple(fabricated(art) for _ in range(rng.choice([0, 1, 2, 3])))
            with_conn(i, lambda c: c.write_artifact_partitions(art, ps))
            m.parts.setdefault(art.storage, set()).update(ps)
        elif op == "read_parts":
            if rng.random() < 0.5 and art.producer_output is not None:
                req = {}
                for _ in range(rng.choice([1, 2])):
                    p = some_partition(art)
                    req[p.partition_key] = p.input_fingerprint
                first = art.storage not in m.parts
                got = unique(with_conn(i, lambda c: c.read_artifact_partitions(art, InputFingerprints(req))), "filtered partitions")
                known = {p for p in m.parts.get(art.storage, ()) if p.partition_key in req and req[p.partition_key] == p.input_fingerprint}
                there = exists(art, req)
                ctx.n["filtered_reads"] += 1
            else:
                if isinstance(art.storage, StringLiteral) and art.producer_output is not None and art.storage not in m.parts:
                    continue  # listing a partitioned literal needs the expected partitions
                first = art.storage not in m.parts
                got = unique(with_conn(i, lambda c: c.read_artifact_partitions(art)), "partitions")
                known = m.parts.get(art.storage, set())
                there = exists(art)
            if first:
                ctx.check(got == there, "first use of a storage must report what exists in it", got=got, want=there)
                m.parts[art.storage] = set(there)
                ctx.n["first_uses"] += 1
            else:
                ctx.check(known <= got, "a recorded partition is not reported", missing=known - got)
                ctx.check(got - known <= there, "a partition is reported that was neither recorded nor exists", extra=got - known - there)
                m.parts[art.storage] |= got
        elif op == "file":
            if isinstance(art.storage, LocalFile):
                part = some_partition(art)
                os.makedirs(os.path.dirname(part.path), exist_ok=True)
                with open(part.path, "w") as f:
                    f.write(f"[{rng.randrange(5)}]")
                files[part.path] = (art.storage, part)
        elif op == "graph":
            g = rng.choice(graphs)
            with_conn(i, lambda c: c.write_graph(g))
            m.graphs[(g.name, g.fingerprint)] = g
        elif op in ("snapshot", "take"):
            g = rng.choice(graphs)
            if op == "snapshot":
                snap = GraphSnapshot(graph=g, id=Fingerprint.from_int(rng.randrange(1, 5)))
                with_conn(i, lambda c: c.write_snapshot(snap))
            else:  # snapshotting records the graph, the snapshot, and all raw partitions, in the given connection's backend
                raw = {k: exists(a) for k, a in g.artifacts.walk() if a.producer_output is None}
                if rng.random() < 0.5:
                    bm = next(x for x in backends if x[0] is g.backend)
                    take = lambda: g.snapshot()  # noqa: E731
                else:
                    bm = (b, m)
                    take = lambda: with_conn(i, lambda c: g.snapshot(connection=c))  # noqa: E731
                if not all(raw.values()):
                    ctx.raises(ValueError, take, "snapshot of a graph without some raw data")
                    ctx.n["refused_snapshots"] += 1
                    continue
                snap = take()
                m = bm[1]
                m.graphs[(g.name, g.fingerprint)] = g
                for k, ps in raw.items():
                    m.parts.setdefault(g.artifacts[k].storage, set()).update(ps)
                    m.linked.setdefault((snap, k), set()).update(ps)
                ctx.n["graph_snapshots"] += 1
            m.snaps[(snap.name, snap.fingerprint)] = snap
            snapshots.append(snap)
        elif op in ("link", "link_both") and snapshots:
            snap = rng.choice(snapshots)
            keys = [k for k, _ in snap.artifacts.walk()]
            k = rng.choice(keys)
            a = snap.artifacts[k]
            ps = tuple(fabricated(a) for _ in range(rng.choice([1, 2])))
            if op == "link":
                with_conn(i, lambda c: c.write_snapshot_partitions(snap, k, a, ps))
            else:
                with_conn(i, lambda c: c.write_artifact_and_graph_partitions(snap, k, a, ps))
                m.parts.setdefault(a.storage, set()).update(ps)
            m.linked.setdefault((snap, k), set()).update(ps)
        elif op == "tag" and snapshots:
            snap, tag, over = rng.choice(snapshots), rng.choice(["v1", "v2", ""]), rng.random() < 0.4
            via = rng.choice(["conn", "method"])
            do = (lambda c: c.write_snapshot_tag(snap, tag, over)) if via == "conn" else (lambda c: snap.tag(tag, overwrite=over, connection=c))
            if (snap.name, tag) in m.tags and not over:
                ctx.raises(ValueError, lambda: with_conn(i, do), "an existing tag without overwrite")
                ctx.n["refused_tags"] += 1
            else:
                with_conn(i, do)
                m.tags[(snap.name, tag)] = snap
        elif op == "read_tag":
            name, tag = rng.choice(["g", "h", "x"]), rng.choice(["v1", "v2", "", "nope"])
            read = rng.choice([lambda c: c.read_snapshot_tag(name, tag), lambda c: GraphSnapshot.from_tag(name, tag, connectable=c), lambda c: GraphSnapshot.from_tag(name, tag, connectable=b)])
            if (name, tag) in m.tags:
                got = with_conn(i, read)
                ctx.check(got == m.tags[(name, tag)] and got.id == m.tags[(name, tag)].id, "a tag resolves to another snapshot")
                ctx.n["tags_read"] += 1
            else:
                ctx.raises(ValueError, lambda: with_conn(i, read), "an unknown tag")
        elif op == "write" and isinstance(art.storage, LocalFile):
            g = next(g for g in graphs if any(a is art for _, a in g.artifacts.walk()))
            value = [rng.randrange(5)] if art.type == PLAIN else [{"k": 1, "v": rng.randrange(5)}]
            p = some_partition(art)
            files[p.path] = (art.storage, p)
            if rng.random() < 0.5:
                s = with_conn(i, lambda c: g.write(value, artifact=art, input_fingerprint=p.input_fingerprint, partition_key=p.partition_key, connection=c))
                wm = m
            else:
                s = g.write(value, artifact=art, input_fingerprint=p.input_fingerprint, partition_key=p.partition_key)
                wm = next(x for x in backends if x[0] is g.backend)[1]
            wm.parts.setdefault(art.storage, set()).add(s)
        # --- reads that must agree with the model after every operation
        for j in range(len(conns)):
            mj = conns[j][1]
            for (name, fp), g in mj.graphs.items():
                got = with_conn(j, lambda c: c.read_graph(name, fp))
                ctx.check(got == g and got.fingerprint == fp and list(got.artifacts.walk()) == list(g.artifacts.walk()), "read_graph returned another graph")
            for (name, fp), s in mj.snaps.items():
                got = with_conn(j, lambda c: c.read_snapshot(name, fp))
                ctx.check(got == s and got.id == s.id, "read_snapshot returned another snapshot")
            g = rng.choice(graphs)
            if (g.name, g.fingerprint) not in mj.graphs:
                ctx.raises(Exception, lambda: with_conn(j, lambda c: c.read_graph(g.name, g.fingerprint)), "a graph recorded nowhere or in another backend")
            if snapshots:
                s = rng.choice(snapshots)
                if (s.name, s.fingerprint) not in mj.snaps:
                    ctx.raises(Exception, lambda: with_conn(j, lambda c: c.read_snapshot(s.name, s.fingerprint)), "a snapshot recorded nowhere or in another backend")
                k, a = rng.choice(list(s.artifacts.walk()))
                check_linked(j, s, k, a)
                ctx.n["link_reads"] += 1
        ctx.seen((len(backends), tuple(ops[-3:]), len(m.parts), len(m.linked), len(m.tags)), {"history": ops[:]} if len(ctx.samples) < 2 and len(ops) > 8 else None)
    # everything once more
    for j in range(len(conns)):
        mj = conns[j][1]
        for snap in snapshots:
            for k, a in snap.artifacts.walk():
                check_linked(j, snap, k, a)
        for _, a in arts:
            if a.storage in mj.parts:
                got = unique(with_conn(j, lambda c: c.read_artifact_partitions(a)), "partitions")
                ctx.check(mj.parts[a.storage] <= got and got - mj.parts[a.storage] <= exists(a), "recorded partitions of a storage", got=len(got), want=len(mj.parts[a.storage]))
        ctx.n["full_sweeps"] += 1
    for cm, _ in open_conns.values():
        cm.__exit__(None, None, None)
    ctx.rmdir(root)
