"""Metadata backends written by users: a journalled file store with different transaction habits.

The pipeline simulators (`pipeline.World`, `c17.World`) run against it with their oracles unchanged; on top,
every connection is watched: opened and closed once, not used outside that time, nothing opened when one was given.
"""

from __future__ import annotations

import os
import pickle
import resource
from collections.abc import Iterator
from contextlib import contextmanager

import c17
import pipeline
from arti import Backend, BackendConnection, Executor, GraphSnapshot, InputFingerprints, Producer
from arti.executors.local import LocalExecutor
from core import Violation, some_error
from pipeline import canon

PROP = "C25"
CASES = {"quick": 700, "thorough": 9000}
SECONDS = {"quick": 100, "thorough": 1200}

OBJECTS: dict = {}  # graphs and snapshots are kept as they are (user classes have no importable home here)


def setup(ctx):
    c17.setup(ctx)


def teardown(ctx):
    c17.teardown(ctx)
    OBJECTS.clear()


class Watch:
    """What happened to connections, over all backends of one case."""

    def __init__(self):
        self.opened = self.closed = self.calls = self.deepest = 0
        self.errors: list[str] = []
        self.fail_at: int | None = None  # the backend itself fails at this call
        self.failed = False
        self.rng = None

    @property
    def live(self):
        return self.opened - self.closed


WATCH = Watch()


class StoreError(Exception):
    pass


def load(path) -> dict:
    if not os.path.exists(path):
        return {}
    with open(path, "rb") as f:
        return pickle.load(f)


def save(path, rows: dict) -> None:
    limit = resource.getrlimit(resource.RLIMIT_FSIZE)  # (a full disk is about the artifacts' data)
    try:
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit[1], limit[1]))
        with open(path + ".new", "wb") as f:
            pickle.dump(rows, f)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, limit)
    os.replace(path + ".new", path)


class FileConnection(BackendConnection):
    """`rows` maps ("kind", ...) to pickled partitions by fingerprint or to object ids; writes are additions to it."""

    def __init__(self, backend):
        self.path, self.mode = backend.path, backend.mode
        self.state = "new"
        self.journal: list = []
        self.rows: dict = {}

    # -- life cycle
    def begin(self):
        if self.state != "new":
            WATCH.errors.append("a connection was opened twice")
        self.state = "open"
        WATCH.opened += 1
        WATCH.deepest = max(WATCH.deepest, WATCH.live)
        self.rows = load(self.path)
        return self

    def end(self, failed: bool):
        if self.state != "open":
            WATCH.errors.append(f"a connection was closed while {self.state}")
        self.state = "closed"
        WATCH.closed += 1
        if self.mode == "transaction" or (self.mode == "rollback" and not failed):
            self.flush()

    def flush(self):
        rows = load(self.path)  # others may have committed in the meantime
        for how, key, value in self.journal:
            if how == "add":
                rows.setdefault(key, {}).update(value)
            else:
                rows[key] = value
        self.journal.clear()
        save(self.path, rows)

    def use(self):
        WATCH.calls += 1
        if self.state != "open":
            WATCH.errors.append(f"a connection was used while {self.state}")
            raise StoreError(f"connection is {self.state}")
        if WATCH.fail_at is not None and WATCH.calls >= WATCH.fail_at:
            WATCH.fail_at, WATCH.failed = None, True
            raise StoreError("boom: the store is unavailable")
        if self.mode == "autocommit":
            self.rows = load(self.path)

    # -- rows
    def put(self, how, key, value):
        if how == "add":
            self.rows.setdefault(key, {}).update(value)
        else:
            self.rows[key] = value
        self.journal.append((how, key, value))
        if self.mode == "autocommit":
            self.flush()

    def get(self, key):
        found = [pickle.loads(self.rows[key][fp]) for fp in sorted(self.rows.get(key, ()))]
        WATCH.rng.shuffle(found)
        return tuple(found)

    # -- the interface
    def read_artifact_partitions(self, artifact, input_fingerprints=InputFingerprints()):
        self.use()
        key = ("storage", artifact.storage.fingerprint)
        if key not in self.rows:
            self.put("add", key, {p.fingerprint: pickle.dumps(p) for p in artifact.storage.discover_partitions(input_fingerprints)})
        found = self.get(key)
        if input_fingerprints:
            found = tuple(p for p in found if p.partition_key in input_fingerprints and input_fingerprints[p.partition_key] == p.input_fingerprint)
        return found

    def write_artifact_partitions(self, artifact, partitions):
        self.use()
        self.put("add", ("storage", artifact.storage.fingerprint), {p.fingerprint: pickle.dumps(p) for p in partitions})

    def read_graph(self, name, fingerprint):
        self.use()
        return OBJECTS[self.rows["graph", name, fingerprint]]

    def write_graph(self, graph):
        self.use()
        OBJECTS[id(graph)] = graph
        self.put("set", ("graph", graph.name, graph.fingerprint), id(graph))

    def read_snapshot(self, name, fingerprint):
        self.use()
        return OBJECTS[self.rows["snapshot", name, fingerprint]]

    def write_snapshot(self, snapshot):
        self.use()
        OBJECTS[id(snapshot)] = snapshot
        self.put("set", ("snapshot", snapshot.name, snapshot.fingerprint), id(snapshot))

    def read_snapshot_tag(self, name, tag):
        self.use()
        if ("tag", name, tag) not in self.rows:
            raise ValueError(f"no tag {tag} of {name}")
        return OBJECTS[self.rows["tag", name, tag]]

    def write_snapshot_tag(self, snapshot, tag, overwrite=False):
        self.use()
        if ("tag", snapshot.name, tag) in self.rows and not overwrite:
            raise ValueError(f"tag {tag} of {snapshot.name} exists")
        OBJECTS[id(snapshot)] = snapshot
        self.put("set", ("tag", snapshot.name, tag), id(snapshot))

    def read_snapshot_partitions(self, snapshot, artifact_key, artifact):
        self.use()
        return self.get(("link", snapshot.name, snapshot.fingerprint, artifact_key))

    def write_snapshot_partitions(self, snapshot, artifact_key, artifact, partitions):
        self.use()
        self.put("add", ("link", snapshot.name, snapshot.fingerprint, artifact_key), {p.fingerprint: pickle.dumps(p) for p in partitions})


class Opening:
    """A context manager that is not a generator."""

    def __init__(self, backend):
        self.conn = FileConnection(backend)

    def __enter__(self):
        return self.conn.begin()

    def __exit__(self, exc_type, exc, tb):
        self.conn.end(exc_type is not None)


class FileBackend(Backend[FileConnection]):
    path: str
    mode: str

    def connect(self):
        return Opening(self)


class GeneratorBackend(FileBackend):
    @contextmanager
    def connect(self) -> Iterator[FileConnection]:
        conn = FileConnection(self).begin()
        try:
            yield conn
        except BaseException:
            conn.end(True)
            raise
        else:
            conn.end(False)


class BackwardsExecutor(Executor):
    """Another order of the same work, with a connection per step, on the helpers executors are given."""

    def build(self, snapshot: GraphSnapshot) -> None:
        from graphlib import TopologicalSorter

        order = TopologicalSorter(snapshot.graph.dependencies)
        order.prepare()
        while order.is_active():
            for node in sorted(order.get_ready(), key=repr, reverse=True):
                if isinstance(node, Producer):
                    with snapshot.backend.connect() as conn:
                        self.step(snapshot, conn, node)
                order.done(node)

    def step(self, snapshot, conn, node):
        dependencies, fingerprints = node.compute_dependencies(self.get_producer_inputs(snapshot, conn, node))
        have = self.discover_producer_partitions(snapshot, conn, node, partition_input_fingerprints=fingerprints)
        for key in sorted(dependencies, key=repr):
            self.build_producer_partition(snapshot, conn, node, existing_partition_keys=have, input_fingerprint=fingerprints[key], input_partitions=dependencies[key], partition_key=key)


class Watched:
    """Mixed into a simulator: its backends, and the watch over them."""

    def prepare(self, rng, mode):
        self.mode, self.cls = mode, rng.choice([FileBackend, GeneratorBackend])
        self.stores = 0

    def open_store(self):
        self.stores += 1
        path = self.root / f"store{self.stores}"
        return self.cls(path=str(path), mode=self.mode)

    def quiet(self, what):
        ctx = self.ctx
        ctx.check(not WATCH.errors, f"{what}: {WATCH.errors[:3]}")
        ctx.check(WATCH.live == 0, f"{what}: {WATCH.live} connections were left open")
        ctx.n["connections"] += WATCH.closed
        ctx.n["connection_calls"] += WATCH.calls
        ctx.seen(("connections", self.mode, what, WATCH.deepest, min(WATCH.opened, 6)))
        WATCH.opened = WATCH.closed = WATCH.calls = WATCH.deepest = 0

    @contextmanager
    def given(self, backend, what):
        """Run the body with one connection, of which it has to make do."""
        with backend.connect() as conn:
            before = WATCH.opened
            yield conn
            self.ctx.check(WATCH.opened == before, f"{what}: given a connection, opened {WATCH.opened - before} others")
            self.ctx.check(conn.state == "open", f"{what}: the given connection was closed")
        self.ctx.n["given_connections"] += 1

    def same_store(self):
        """Another process' view of the same store: a new backend object for it."""
        b = self.rng.choice([FileBackend, GeneratorBackend])(path=self.backend.path, mode=self.mode)
        self.backend = b
        self.define()
        self.ctx.n["reconnected"] += 1

    def broken_store(self, build, twice):
        """The store itself fails in the middle: the build fails with that error; a later one is right."""
        ctx, rng = self.ctx, self.rng
        WATCH.fail_at, WATCH.failed = WATCH.calls + rng.choice([1, 2, 3, 5, 8, 13, 21, 34]), False
        raised = None
        try:
            build()
        except StoreError as e:
            raised = e
        finally:
            WATCH.fail_at = None
        ctx.check((raised is not None) == WATCH.failed, "an error of the backend did not reach the caller", failed=WATCH.failed)
        self.quiet("a failing store")
        ctx.n["store_failures"] += WATCH.failed


class World(Watched, pipeline.World):
    def __init__(self, ctx, rng, mode):
        self.prepare(rng, mode)
        super().__init__(ctx, rng)

    def store(self):
        return self.open_store()

    def read(self, who, name, t):
        if self.rng.random() < 0.4:
            with self.given(who.backend, "read") as conn:
                got = who.read(who.artifacts[name], annotation=t, connection=conn)
                self.ctx.n["given_reads"] += 1
            return got
        return super().read(who, name, t)

    def write_raw(self, r, value, how):
        if r.kind == "literal" or how != "graph" or self.rng.random() < 0.5:
            return super().write_raw(r, value, how)
        super().write_raw(r, value, "bytes")
        with self.given(self.g.backend, "write") as conn:
            self.g.write(value, artifact=self.g.artifacts[r.name], connection=conn)

    def produced(self):
        """What `Graph.read` finds for produced artifacts, all by one connection."""
        vals = self.evaluate()
        for s in self.steps:
            for j, n in self.outputs(s):
                with self.given(self.g.backend, "read of the current snapshot") as conn:
                    got = self.g.read(self.g.artifacts[n], annotation=s.out_types[j], connection=conn)
                self.ctx.eq(canon(got), canon(vals["s", s.uid, j]), f"{n} read with a given connection")
                self.ctx.n["given_current_reads"] += 1

    def snapshots(self):
        with self.given(self.g.backend, "snapshot") as conn:
            snap = self.g.snapshot(connection=conn)
        again = self.g.snapshot()
        self.ctx.check(snap == again and snap.id == again.id, "a snapshot taken with a given connection differs")
        snap.build(self.rng.choice([None, LocalExecutor(), BackwardsExecutor()]))
        self.check_snapshot(snap, self.evaluate())
        with self.given(self.g.backend, "tag") as conn:
            snap.tag("given", connection=conn, overwrite=True)
            got = GraphSnapshot.from_tag(snap.name, "given", connectable=conn)
            self.ctx.check(got.id == snap.id, "a tag read with the connection that wrote it")
        got = GraphSnapshot.from_tag(snap.name, "given", connectable=self.g.backend)
        self.ctx.check(got.id == snap.id, "a tag written with a given connection")
        self.ctx.n["given_tags"] += 1

    def with_executor(self):
        """A build by an executor of the user's on the same helpers."""
        snap = self.g.snapshot()
        snap.build(BackwardsExecutor())
        self.check_snapshot(snap, self.evaluate())
        self.ctx.n["other_executor"] += 1

    def run(self):
        rng, ctx = self.rng, self.ctx
        self.start()
        self.build()
        self.quiet("first build")
        for _ in range(rng.choice([2, 4, 6])):
            op = self.mutate()
            self.quiet("between builds")
            if rng.random() < 0.4:
                self.same_store()
            r = rng.random()
            if r < 0.25 and self.mode != "rollback":
                if self.faulty_build():
                    self.quiet("failed build")
                    ctx.n["failed_builds"] += 1
                self.build()
            elif r < 0.4:
                self.broken_store(self.g.build, True)
                self.build(check_runs=False)
            elif r < 0.5 and op not in ("lose",):
                self.with_executor()
                self.build(check_runs=False)
            else:
                self.build()
            self.quiet("build")
            if rng.random() < 0.4:
                self.produced()
                self.snapshots()
            if rng.random() < 0.5:
                self.check_old(2)
                self.tag_ops()
            self.quiet("reads and tags")
            ctx.seen(("transition", op, self.mode, self.cls.__name__, self.bid > 0))


class Partitioned(Watched, c17.World):
    def __init__(self, ctx, rng, mode):
        self.prepare(rng, mode)
        super().__init__(ctx, rng)
        if mode == "rollback":
            self.fail_rate = 0

    def new_backend(self):
        return self.open_store()

    def run(self):
        rng, ctx = self.rng, self.ctx
        self.start()
        self.build()
        self.quiet("first partitioned build")
        for _ in range(rng.choice([1, 3, 5])):
            self.mutate()
            if rng.random() < 0.4:
                self.same_store()
            self.build()
            ctx.n["partitioned_builds"] += 1
            self.quiet("partitioned build")


def case(ctx, rng):
    global WATCH
    WATCH = Watch()
    WATCH.rng = rng
    mode = rng.choice(["autocommit", "transaction", "transaction", "rollback"])
    w = (Partitioned if rng.random() < 0.3 else World)(ctx, rng, mode)
    try:
        w.run()
        if len(ctx.samples) < 4:
            ctx.samples.append({"case": ctx.case_id, "mode": mode, "world": type(w).__name__, "stores": w.stores, "steps": len(w.steps)})
    finally:
        OBJECTS.clear()
        ctx.rmdir(w.root)
