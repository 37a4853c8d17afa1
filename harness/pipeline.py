"""Seeded pipeline simulator: random graphs, random histories, three oracles.

The real library runs; the monitors are
  * a log of every call of a user build function (uid, keyword arguments, fault),
  * a from-scratch evaluator over the raw data present at the build,
  * a three-valued (must / must not / may run) model of which steps have completed outputs,
  * re-reads of snapshots taken earlier.
Only public API is used to drive and observe the library.
"""

from __future__ import annotations

import copy
import datetime
import hashlib
import json
import os
import pickle
import resource
import signal
import shutil
from pathlib import Path
from typing import Annotated  # noqa: F401 (used by generated code)

import numpy as np

from arti import Artifact, Graph, GraphSnapshot, PartitionDependencies, Producer, StoragePartitions, producer
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.internal.mappings import frozendict
from arti.partitions import NotPartitioned
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types.python import python_type_system
from arti.versions import SemVer
from arti.versions import String as StringVersion

from core import Ctx, Inconclusive, Violation, some_error

JSON_TYPES = [int, float, str, list[int], list[str], list[float], dict[str, int]]
PICKLE_TYPES = JSON_TYPES + [datetime.date, datetime.datetime]
LITERAL_TYPES = [int, float, str, list[int], list[str]]


def hint_src(t) -> str:
    return {datetime.date: "datetime.date", datetime.datetime: "datetime.datetime"}.get(t) or (t.__name__ if isinstance(t, type) and not hasattr(t, "__args__") else repr(t))


def arti_type(t):
    return python_type_system.to_artigraph(t, hints={})


def unique_value(t, seed: str):
    """A value of type `t` that is (with overwhelming probability) unique to `seed`."""
    h = int.from_bytes(hashlib.sha256(seed.encode()).digest()[:6], "big")
    if t is int:
        return h if h % 3 else -h
    if t is float:
        return h / 1024.0
    if t is str:
        return ["v%x", "é%x ✓", '"q\\%x\n', "%x"][h % 4] % h
    if t is datetime.date:
        return datetime.date(1, 1, 1) + datetime.timedelta(days=h % 3_600_000)
    if t is datetime.datetime:
        return datetime.datetime(1900, 1, 1) + datetime.timedelta(microseconds=h)
    origin = t.__origin__
    if origin is list:
        return [unique_value(t.__args__[0], f"{seed}/{i}") for i in range(1 + h % 4)]
    if origin is dict:
        return {unique_value(str, f"{seed}/k{i}"): unique_value(t.__args__[1], f"{seed}/{i}") for i in range(1 + h % 3)}
    raise AssertionError(t)


def canon(v) -> str:
    return f"{type(v).__name__}:{v!r}"


def scramble(v):
    """Change a value in place, as users may do with what they were given (or gave away earlier)."""
    if isinstance(v, list):
        v.reverse()
        v.append(v[0] if v else None)
    elif isinstance(v, dict):
        v.clear()


class Alien:
    """A value whose type represents none of the declared types."""


class Raw:
    def __init__(self, name, kind, fmt, t, style, value):
        self.name, self.kind, self.fmt, self.t, self.style = name, kind, fmt, t, style
        self.value = value
        self.history = [value]


class Step:
    def __init__(self, uid, inputs, out_types, out_names, storages, fmts, lossy, style, version):
        self.uid = uid  # also the producer class name
        self.inputs = inputs  # [(param, source key)], source key = ("r", name) | ("s", uid, position)
        self.out_types = out_types
        self.out_names = out_names  # per output position: list of names (maybe empty)
        self.storages = storages  # {name: "literal" | "local"}
        self.fmts = fmts  # {name: fmt}
        self.lossy = lossy
        self.style = style  # "decorator" | "class"
        self.version = version
        self.salt = 0
        self.gates = []  # [(param, source key)] only given to `map`, not read by the step


def fmt_obj(fmt):
    return JSON() if fmt == "json" else Pickle()


class World:
    """One graph's history, with the oracles' models."""

    def __init__(self, ctx: Ctx, rng, *, faults=False, versions=False, snapshots=True):
        self.ctx, self.rng = ctx, rng
        self.root = ctx.tmpdir()
        self.log: list = []
        self.maplog: list = []
        self.mine: list = []  # containers returned by steps, which stay theirs to change
        self.fault = None  # (uid, kind)
        self.uid = f"{rng.getrandbits(40):x}"
        self.gname = rng.choice(["g", "my-graph", "a.b", "G raph", "é", "x[1]"]) + self.uid[:3]
        self.gnames = set()
        self.path_tags = rng.choice([{}, {}, {"env": "prod"}, {"a": "1", "b": "2"}])
        self.raws: dict[str, Raw] = {}
        self.steps: list[Step] = []
        self.classes: dict = {}
        self.names: set[str] = set()
        self.vcount = 0
        self.backend = self.store()
        self.bid = 0
        # completion model
        self.disk: set = set()  # (location, key) complete local outputs
        self.known: set = set()  # (bid, location, key) guaranteed known to that backend
        self.stored: set = set()  # (bid, location, key) ever stored through / known by that backend
        self.touched: set = set()  # (bid, location)
        self.partial: set = set()  # (location, key) that may have been half published by a failed build
        self.paths: dict = {}
        self.snaps: list = []  # (snapshot, {name: value}, bid)
        self.tags: dict = {}  # per backend: {(bid, tag): snapshot index}
        self.ran_ever: set = set()
        self._initial()

    # ---------------------------------------------------------------- spec
    def fresh_name(self, stem: str) -> str:
        for _ in range(100):
            n = f"{stem}{len(self.names)}"
            if self.rng.random() < 0.4:
                n = f"{self.rng.choice(['ns', 'deep.er', 'x.y'])}.{n}"
            if n not in self.names:
                self.names.add(n)
                return n
        raise AssertionError

    def new_value(self, t):
        # Sometimes equal to the current value of another raw artifact.
        if self.rng.random() < 0.15 and (same := [r.value for r in self.raws.values() if r.t == t]):
            return self.rng.choice(same)
        self.vcount += 1
        return unique_value(t, f"{self.uid}/{self.vcount}")

    def add_raw(self) -> Raw:
        rng = self.rng
        kind = rng.choice(["local", "local", "local", "literal"])
        fmt = "json" if kind == "literal" else rng.choice(["json", "json", "pickle"])
        t = rng.choice(LITERAL_TYPES if kind == "literal" else (JSON_TYPES if fmt == "json" else PICKLE_TYPES))
        style = rng.choice(["plain", "artifact"]) if kind == "literal" else rng.choice(["rooted", "explicit"])
        name = self.fresh_name("raw")
        self.raws[name] = r = Raw(name, kind, fmt, t, style, self.new_value(t))
        return r

    def sources(self):
        out = [(("r", n), r.t) for n, r in self.raws.items()]
        for s in self.steps:
            for j, names in enumerate(s.out_names):
                if names:
                    out.append((("s", s.uid, j), s.out_types[j]))
        return out

    def add_step(self) -> Step:
        rng = self.rng
        uid = f"Step{self.uid}x{len(self.steps)}x{rng.getrandbits(16):x}"
        src = self.sources()
        rng.shuffle(src)
        k = rng.choice([1, 1, 2, 2, 3, 4])
        # The same artifact may be wired to several parameters.
        picked = [rng.choice(src) for _ in range(k)] if rng.random() < 0.25 else src[:k]
        inputs = [(f"p{i}", key) for i, (key, _) in enumerate(picked)]
        n_out = rng.choice([1, 1, 1, 2, 2, 3])
        # All names of an output share its type; the formats must support it.
        out_types, out_names, storages, fmts = [], [], {}, {}
        same = rng.random() < 0.4
        for j in range(n_out):
            t = out_types[0] if same and out_types else rng.choice(PICKLE_TYPES)
            out_types.append(t)
            k = rng.choice([1, 1, 1, 1, 0, 2]) if n_out > 1 else rng.choice([1, 1, 1, 2])
            out_names.append([self.fresh_name("out") for _ in range(k)])
        if not any(out_names):
            out_names[rng.randrange(n_out)].append(self.fresh_name("out"))
        for j, names in enumerate(out_names):
            if not (same and storages):
                storage = rng.choice(["literal", "local", "local"])
                fmt = rng.choice(["json", "pickle"])
            if out_types[j] not in JSON_TYPES:
                storage, fmt = "local", "pickle"
            if storage == "literal":
                fmt = "json"
            for n in names:
                storages[n], fmts[n] = storage, fmt
        s = Step(uid, inputs, out_types, out_names, storages, fmts, rng.random() < 0.25, rng.choice(["decorator", "class"]), self.random_version())
        if rng.random() < 0.2:
            s.style = "class"
            s.gates = [(f"gate{i}", key) for i, (key, _) in enumerate(rng.sample(src, min(len(src), rng.choice([1, 1, 2]))))]
        self.steps.append(s)
        return s

    def random_version(self):
        rng = self.rng
        return rng.choice([None, SemVer(major=0, minor=0, patch=1), SemVer(major=1, minor=2, patch=3), StringVersion(value="v1")])

    def _initial(self):
        for _ in range(self.rng.choice([1, 2, 2, 3])):
            self.add_raw()
        for _ in range(self.rng.choice([1, 2, 3, 3, 4, 5])):
            self.add_step()

    # ---------------------------------------------------------------- user functions
    def evaluate_step(self, s: Step, kwargs: dict) -> list:
        seed = f"{s.uid}|{s.salt}|" + "|".join(f"{k}={canon(v)}" for k, v in sorted(kwargs.items()))
        if s.lossy:
            seed = f"{s.uid}|{s.salt}|{int(hashlib.sha256(seed.encode()).hexdigest(), 16) % 2}"
        return [unique_value(t, f"{seed}|{j}") for j, t in enumerate(s.out_types)]

    def impl(self, s: Step, kwargs: dict):
        while self.mine:
            scramble(self.mine.pop())
        # Each argument belongs to this call: changing one in place must be invisible elsewhere.
        given = {}
        for k, v in kwargs.items():
            given[k] = copy.deepcopy(v)
            scramble(v)
        kwargs = given
        self.log.append((s.uid, dict(kwargs), None if self.fault is None else self.fault[1]))
        outs = self.evaluate_step(s, kwargs)
        self.mine = [v for v in outs if isinstance(v, list | dict)]
        if self.fault is not None and self.fault[0] == s.uid:
            kind = self.fault[1]
            if kind == "raise":
                raise some_error(self.rng, "boom: build")
            if kind == "interrupt":
                raise self.rng.choice([KeyboardInterrupt, SystemExit, GeneratorExit])("boom: interrupted")
            if kind in ("invalid", "invalid-raise"):
                outs = [unique_value(t, f"BAD{self.uid}{j}") for j, t in enumerate(s.out_types)]
            if kind == "wrong-type":
                outs = [Alien() for _ in outs]
            if kind == "wrong-type-one":
                outs[self.fault[2]] = Alien()
            if kind == "wrong-count":
                outs = [*outs, *outs]
                return tuple(outs)
            if kind == "unserializable":
                j = self.fault[2]
                outs[j] = [object, lambda: 0, {1}, object()] if isinstance(outs[j], list) else {"a": lambda: 0}
        return outs[0] if len(outs) == 1 else tuple(outs)

    def validate(self, s: Step, outs: tuple):
        if self.fault is not None and self.fault[0] == s.uid:
            if self.fault[1] == "invalid":
                # (Comparisons of arrays, sums, ... give other falsy statuses than `False` itself.)
                return self.rng.choice([(False, "boom: invalid output"), (False, ""), (np.bool_(False), "boom: invalid output"), (0, "boom: invalid output")])
            if self.fault[1] == "invalid-raise":
                raise some_error(self.rng, "boom: validation crashed")
        for j, t in enumerate(s.out_types):
            want = getattr(t, "__origin__", t)
            if type(outs[j]) is not want and not (self.fault and self.fault[0] == s.uid):
                raise Violation(f"validate_outputs got {outs!r} for {s.out_types}")
        return self.rng.choice([(True, "ok"), (True, ""), (np.bool_(True), "ok")])

    def step_class(self, s: Step):
        key = (s.uid, s.version.fingerprint if s.version is not None else None)
        if key in self.classes:
            return self.classes[key]
        types = {k: self.type_of(src) for k, src in s.inputs}
        params = ", ".join(f"{k}: {hint_src(types[k])}" for k, _ in s.inputs)
        hints = [hint_src(t) for t in s.out_types]
        ret = hints[0] if len(hints) == 1 else f"tuple[{', '.join(hints)}]"
        ns = {"StoragePartitions": StoragePartitions, "PartitionDependencies": PartitionDependencies, "_map": self.map_impl, "datetime": datetime, "_impl": self.impl, "_validate": self.validate, "_s": s, "Annotated": Annotated}
        exec(  # noqa: S102
            f"def {s.uid}({params}) -> {ret}:\n    return _impl(_s, dict({', '.join(f'{k}={k}' for k, _ in s.inputs)}))\n"
            f"def validate_outputs(*outs):\n    return _validate(_s, outs)\n"
            f"def map({', '.join(f'{k}: StoragePartitions' for k, _ in s.inputs + s.gates)}) -> PartitionDependencies:\n    return _map(_s, dict({', '.join(f'{k}={k}' for k, _ in s.inputs + s.gates)}))\n",
            ns,
        )
        if s.style == "decorator":
            cls = producer(version=s.version, validate_outputs=ns["validate_outputs"])(ns[s.uid])
        else:
            body = {"__annotations__": {k: Artifact for k, _ in s.inputs + s.gates}, "__module__": __name__, "build": staticmethod(ns[s.uid]), "validate_outputs": staticmethod(ns["validate_outputs"])}
            if s.gates:
                body["map"] = staticmethod(ns["map"])
            if s.version is not None:
                from arti import Version

                body["__annotations__"]["version"] = Version
                body["version"] = s.version
            cls = type(s.uid, (Producer,), body)
        self.classes[key] = cls
        return cls

    def map_impl(self, s: Step, kwargs: dict):
        self.maplog.append((s.uid, {k: [p.content_fingerprint for p in v] for k, v in kwargs.items()}))
        return PartitionDependencies({NotPartitioned: frozendict({k: kwargs[k] for k, _ in s.inputs})})

    def type_of(self, src):
        if src[0] == "r":
            return self.raws[src[1]].t
        return next(s for s in self.steps if s.uid == src[1]).out_types[src[2]]

    def names_of(self, src):
        if src[0] == "r":
            return [src[1]]
        return next(s for s in self.steps if s.uid == src[1]).out_names[src[2]]

    # ---------------------------------------------------------------- definition
    def raw_file(self, r: Raw) -> Path:
        return self.root / "raw" / f"{r.name}.{r.fmt}"

    def raw_artifact(self, r: Raw):
        if r.kind == "literal":
            if r.style == "plain":
                self.mine.append(copy.deepcopy(r.value))
                return self.mine[-1]
            return Artifact(type=arti_type(r.t), format=JSON(), storage=StringLiteral(value=json.dumps(r.value)))
        storage = LocalFile(path=str(self.raw_file(r))) if r.style == "explicit" else LocalFile.rooted_at(self.root / "raws")
        return Artifact(type=arti_type(r.t), format=fmt_obj(r.fmt), storage=storage)

    def define(self, reopen: bool = False) -> Graph:
        rng = self.rng
        nodes: list = list(self.raws.values()) + list(self.steps)
        # Random topological order.
        done: set = set()
        order = []
        while nodes:
            ready = [n for n in nodes if isinstance(n, Raw) or all(src[0] == "r" and src[1] in done or src[0] == "s" and src[1] in done for _, src in n.inputs + n.gates)]
            n = rng.choice(ready)
            nodes.remove(n)
            order.append(n)
            done.add(n.name if isinstance(n, Raw) else n.uid)
        g = Graph(name=self.gname, path_tags=dict(self.path_tags), backend=self.backend)
        cut = rng.randrange(len(order) + 1) if reopen else len(order)
        for part in (order[:cut], order[cut:]):
            if not part:
                continue
            with g:
                for n in part:
                    self._assign(g, n)
            if reopen:
                _ = (g.fingerprint, g.dependencies, g.producers)  # populate caches before re-opening
        self.g = g
        return g

    def _assign(self, g, n):
        rng = self.rng
        if isinstance(n, Raw):
            g.artifacts[n.name] = self.raw_artifact(n)
            return
        s = n
        inst = self.step_class(s)(**{k: g.artifacts[rng.choice(self.names_of(src))] for k, src in s.inputs + s.gates})
        arts = []
        for j, t in enumerate(s.out_types):
            names = s.out_names[j]
            storage, fmt = (s.storages[names[0]], s.fmts[names[0]]) if names else ("local", "pickle")
            st = StringLiteral() if storage == "literal" else LocalFile.rooted_at(self.root / "out")
            arts.append(Artifact(type=arti_type(t), format=fmt_obj(fmt), storage=st))
        outs = inst.out(*arts)
        outs = outs if isinstance(outs, tuple) else (outs,)
        assigns = [(nm, outs[j]) for j, names in enumerate(s.out_names) for nm in names]
        rng.shuffle(assigns)
        for nm, o in assigns:
            if "." in nm and rng.random() < 0.5:
                box, leaf = g.artifacts, nm
                *head, leaf = nm.split(".")
                for h in head:
                    box = getattr(box, h)
                setattr(box, leaf, o)
            else:
                g.artifacts[nm] = o

    # ---------------------------------------------------------------- raw data
    def write_raw(self, r: Raw, value, how: str):
        """how: graph | bytes | respell (same value, different bytes)"""
        r.value = value
        if value not in r.history:
            r.history.append(value)
        if r.kind == "literal":
            return  # takes effect at the next definition
        if how == "graph":
            self.g.write(value, artifact=self.g.artifacts[r.name])
            return
        path = Path(self.g.artifacts[r.name].storage.generate_partition().path)
        path.parent.mkdir(parents=True, exist_ok=True)
        if r.fmt == "json":
            data = (json.dumps(value, indent=self.rng.choice([1, 2, 3, 5, 7])) + " " * self.rng.randrange(9) if how == "respell" else json.dumps(value)).encode()
        else:
            data = pickle.dumps(value, protocol=self.rng.choice([2, 3, 5]) if how == "respell" else 4)
        self.write_bytes(path, data)

    def write_bytes(self, path: Path, data: bytes):
        """Out-of-band write: in place, or by replacing the file; sometimes keeping size and mtime plausible."""
        if self.rng.random() < 0.5 and path.exists():
            st = path.stat()
            path.write_bytes(data)
            if self.rng.random() < 0.7:
                os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))  # metadata must not be what decides
        else:
            tmp = path.with_name(path.name + ".swap")
            tmp.write_bytes(data)
            os.replace(tmp, path)

    def raw_content(self, r: Raw):
        if r.kind == "literal":
            return ("lit", json.dumps(r.value))
        return ("file", Path(self.g.artifacts[r.name].storage.generate_partition().path).read_bytes())

    # ---------------------------------------------------------------- oracles
    def evaluate(self) -> dict:
        """From-scratch evaluation: {source key: value}."""
        vals = {("r", n): r.value for n, r in self.raws.items()}
        for s in self.steps:  # steps are stored in creation (= a topological) order
            outs = self.evaluate_step(s, {k: vals[src] for k, src in s.inputs})
            for j, v in enumerate(outs):
                vals[("s", s.uid, j)] = v
        return vals

    def vkey(self, v):
        if v is None:
            return ("SemVer", 0, 0, 1)  # the documented default
        if isinstance(v, SemVer):
            return ("SemVer", v.major) if v.major > 0 else ("SemVer", v.major, v.minor, v.patch)
        return (type(v).__name__, v.value)

    def step_keys(self, vals) -> dict:
        content = {("r", n): self.raw_content(r) for n, r in self.raws.items()}
        keys = {}
        for s in self.steps:
            keys[s.uid] = (s.uid, self.vkey(s.version), tuple(sorted((k, content[src]) for k, src in s.inputs)))
            for j, names in enumerate(s.out_names):
                if names:
                    n0 = names[0]
                    content[("s", s.uid, j)] = (s.storages[n0], s.fmts[n0], canon(vals[("s", s.uid, j)]))
        return keys

    def location(self, s: Step, name: str):
        return (self.gname, tuple(self.path_tags.items()), name, s.storages[name], s.fmts[name])

    def outputs(self, s: Step):
        return [(j, n) for j, names in enumerate(s.out_names) for n in names]

    def expectation(self, s: Step, key) -> str:
        # What is stored is identified by the location, the step's inputs and the output position.
        locs = [(self.location(s, n), (key, j)) for j, n in self.outputs(s)]
        if all((self.bid, loc, k) in self.known for loc, k in locs):
            return "mustnot"
        if any((self.bid, loc, k) not in self.stored and ((loc, k) not in self.disk) and (loc, k) not in self.partial for loc, k in locs):
            return "must"
        if all((self.bid, loc, k) in self.known or ((self.bid, loc) not in self.touched and (loc, k) in self.disk) for loc, k in locs):
            return "mustnot"
        return "may"

    def record(self, s: Step, step_key, snap):
        for j, n in self.outputs(s):
            loc = self.location(s, n)
            key = (step_key, j)
            self.known.add((self.bid, loc, key))
            self.stored.add((self.bid, loc, key))
            self.touched.add((self.bid, loc))
            self.partial.discard((loc, key))
            if s.storages[n] == "local":
                self.disk.add((loc, key))
                with self.backend.connect() as conn:
                    parts = conn.read_snapshot_partitions(snap, n, self.g.artifacts[n])
                for p in parts:
                    self.paths[(loc, key)] = p.storage_partition.path

    # ---------------------------------------------------------------- operations
    def build(self, *, check_values=True, check_runs=True):
        ctx = self.ctx
        vals = self.evaluate()
        keys = self.step_keys(vals)
        expect = {s.uid: self.expectation(s, keys[s.uid]) for s in self.steps}
        self.log.clear()
        self.maplog.clear()
        snap = self.g.snapshot().build() if self.rng.random() < 0.3 else self.g.build()
        ctx.n["builds"] += 1
        counts: dict = {}
        for uid, kwargs, _ in self.log:
            counts[uid] = counts.get(uid, 0) + 1
        by_uid = {s.uid: s for s in self.steps}
        for uid, kwargs, _ in self.log:
            ctx.n["step_runs_observed"] += 1
            if check_values:
                want = {k: vals[src] for k, src in by_uid[uid].inputs}
                ctx.eq(canon(sorted(kwargs.items())), canon(sorted(want.items())), f"arguments of {uid}")
        for uid, given in self.maplog:
            # Whatever a step's `map` looks at must be there (and be read as the build left it).
            ctx.n["maps_observed"] += 1
            want = {k: [p.content_fingerprint for p in self.partitions(snap, src)] for k, src in by_uid[uid].inputs + by_uid[uid].gates}
            ctx.eq(given, want, f"partitions given to the map of {uid}")
        if check_runs:
            for s in self.steps:
                n, e = counts.get(s.uid, 0), expect[s.uid]
                ctx.n[f"run_oracle_{e}"] += 1
                ctx.check(n <= 1, f"step {s.uid} ran {n} times in one build")
                ctx.check(not (e == "must" and n == 0), f"step {s.uid} was not run although no completed output exists for its inputs", backend=self.bid)
                ctx.check(not (e == "mustnot" and n), f"step {s.uid} was run again although its outputs for these inputs are complete", backend=self.bid)
                ctx.seen(("run", e, n, len(s.inputs), len(s.out_types), s.lossy, tuple(sorted(s.storages.values())), s.uid in self.ran_ever, self.bid > 0))
                if n:
                    self.ran_ever.add(s.uid)
        if check_values:
            self.check_snapshot(snap, vals)
        for s in self.steps:
            self.record(s, keys[s.uid], snap)
        self.snaps.append((snap, {n: (vals[("s", s.uid, j)], s.out_types[j]) for s in self.steps for j, n in self.outputs(s)}, self.bid))
        return snap

    def partitions(self, snap, src):
        name = self.names_of(src)[0]
        with self.backend.connect() as conn:
            parts = conn.read_snapshot_partitions(snap, name, self.g.artifacts[name])
        self.ctx.check(len(parts) == 1, f"{name} has {len(parts)} partitions after a build")
        return parts

    def check_snapshot(self, snap, vals):
        ctx, rng = self.ctx, self.rng
        for s in self.steps:
            for j, n in self.outputs(s):
                want = vals[("s", s.uid, j)]
                got = self.read(snap, n, s.out_types[j])
                ctx.n["artifact_reads"] += 1
                ctx.eq(canon(got), canon(want), f"produced artifact {n} (output {j} of {len(s.out_types)})")
                ctx.seen(("value", s.storages[n], s.fmts[n], hint_src(s.out_types[j]), j, len(s.out_types), len(s.inputs)))
        for r in self.raws.values():
            got = self.read(snap, r.name, r.t) if rng.random() < 0.5 else self.read(self.g, r.name, r.t)
            ctx.eq(canon(got), canon(r.value), f"raw artifact {r.name}")

    def read(self, who, name, t):
        hint = t if self.rng.random() < 0.5 or not hasattr(t, "__origin__") else t.__origin__
        got = who.read(who.artifacts[name], annotation=hint)
        mine = copy.deepcopy(got)
        scramble(got)  # what was read belongs to the reader
        return mine

    def check_old(self, k=3):
        """Produced artifacts of earlier snapshots keep their values."""
        for snap, vals, bid in self.rng.sample(self.snaps, min(k, len(self.snaps))):
            for n, (want, t) in vals.items():
                self.ctx.n["old_snapshot_reads"] += 1
                self.ctx.eq(canon(self.read(snap, n, t)), canon(want), f"earlier snapshot's {n}")

    def new_backend(self):
        self.bid = max(self.bid, getattr(self, "_maxbid", 0)) + 1
        self._maxbid = self.bid
        self.backend = self.store()

    def store(self):
        """An empty metadata backend."""
        return MemoryBackend()

    # One random history step that does not build.
    def mutate(self, ops=None):
        rng, ctx = self.rng, self.ctx
        op = rng.choice(ops or ["edit", "edit", "edit", "edit", "revert", "revert", "same", "respell", "redefine", "reopen", "fresh", "fresh-redefine", "swap-raws", "swap-outputs", "add", "add-raw", "drop", "rename-graph", "lose", "nothing"])
        ctx.n[f"op_{op}"] += 1
        local = [r for r in self.raws.values() if r.kind == "local"]
        lits = [r for r in self.raws.values() if r.kind == "literal"]
        if op in ("edit", "revert", "same", "respell"):
            r = rng.choice(list(self.raws.values()))
            value = {"edit": lambda: self.new_value(r.t), "revert": lambda: rng.choice(r.history), "same": lambda: r.value, "respell": lambda: r.value}[op]()
            self.write_raw(r, value, "respell" if op == "respell" else rng.choice(["graph", "bytes"]))
            if r.kind == "literal":
                self.define()
        elif op == "swap-raws":
            pairs = [(a, b) for a in self.raws.values() for b in self.raws.values() if a.name < b.name and a.t == b.t]
            if pairs:
                a, b = rng.choice(pairs)
                va, vb = a.value, b.value
                self.write_raw(a, vb, rng.choice(["graph", "bytes"]))
                self.write_raw(b, va, rng.choice(["graph", "bytes"]))
                ctx.n["swapped_raws"] += 1
                if "literal" in (a.kind, b.kind):
                    self.define()
        elif op == "swap-outputs":
            # Redefine which of a step's outputs each of its keys is wired to.
            sig = lambda s, j: (hint_src(s.out_types[j]), len(s.out_names[j]), [(s.storages[n], s.fmts[n]) for n in s.out_names[j]])  # noqa: E731
            cands = [(s, i, j) for s in self.steps for i in range(len(s.out_types)) for j in range(i) if s.out_names[i] and sig(s, i) == sig(s, j)]
            if cands:
                s, i, j = rng.choice(cands)
                s.out_names[i], s.out_names[j] = s.out_names[j], s.out_names[i]
                ctx.n["swapped_outputs"] += 1
                self.define()
        elif op == "redefine":
            self.define()
            self.restore_raws()
        elif op == "reopen":
            self.define(reopen=True)
        elif op == "fresh":
            self.new_backend()
            self.g = self.g.model_copy(update={"backend": self.backend})
        elif op == "fresh-redefine":
            self.new_backend()
            self.define()
        elif op in ("add", "add-raw"):
            if len(self.steps) > 9:
                return op
            if op == "add-raw":
                self.add_raw()
            self.add_step()
            self.define()
            self.write_missing()
        elif op == "drop":
            used = {src[1] for s in self.steps for _, src in s.inputs + s.gates}
            leaves = [s for s in self.steps if s.uid not in used]
            if len(self.steps) > 1 and leaves:
                self.steps.remove(rng.choice(leaves))
                self.define()
        elif op == "rename-graph":
            self.gnames.add(self.gname)
            self.gname = rng.choice([n for n in (self.gname + "r", self.gname.upper(), self.gname.lower(), self.gname.title(), self.gname + " ", " " + self.gname, self.gname[:-1]) if n.strip() and n not in self.gnames])
            self.define()
            self.write_missing(all_rooted=True)
        elif op == "lose":
            # All of one produced artifact's files vanish and the metadata is gone too.
            cands = sorted({loc for loc, _ in self.disk}, key=repr)
            if cands:
                loc = rng.choice(cands)
                for (lo, key), path in list(self.paths.items()):
                    if lo == loc:
                        Path(path).unlink(missing_ok=True)
                self.disk = {(lo, k) for lo, k in self.disk if lo != loc}
                self.snaps = []
                self.partial = {(lo, k) for lo, k in self.partial if lo != loc}
                self.new_backend()
                self.define()
        return op

    def restore_raws(self):
        pass

    def write_missing(self, all_rooted=False):
        for r in self.raws.values():
            if r.kind == "local" and not Path(self.g.artifacts[r.name].storage.generate_partition().path).exists():
                self.write_raw(r, r.value, self.rng.choice(["graph", "bytes"]))

    def start(self):
        self.define(reopen=self.rng.random() < 0.3)
        self.write_missing()

    # ---------------------------------------------------------------- faults
    def faulty_build(self) -> str | None:
        """Make one step (that has to run) fail; check what is left behind. Returns the fault kind."""
        rng, ctx = self.rng, self.ctx
        vals = self.evaluate()
        keys = self.step_keys(vals)
        must = [s for s in self.steps if self.expectation(s, keys[s.uid]) == "must"]
        if not must:
            return None
        s = rng.choice(must)
        kinds = ["raise", "raise", "invalid", "invalid", "invalid-raise", "wrong-type", "interrupt", "wrong-count", "wrong-type-one"]
        # Serialisation faults: only when the marked output's declared container type still admits the value.
        containers = [j for j, t in enumerate(s.out_types) if getattr(t, "__origin__", None) in (list, dict) and s.out_names[j]]
        if containers:
            kinds += ["unserializable"] * 3
        if any(s.storages[n] == "local" and (self.location(s, n), (keys[s.uid], j)) not in self.disk | self.partial for j, n in self.outputs(s)):
            kinds += ["disk-full"] * 3
        locals_ = [r for r in self.raws.values() if r.kind == "local" and r.fmt == "json" and any(("r", r.name) == src for _, src in s.inputs)]
        if locals_:
            kinds += ["unreadable", "unreadable", "vanished", "vanished"]
        kind = rng.choice(kinds)
        kept = [j for j, names in enumerate(s.out_names) if names]
        bad = rng.choice(containers) if kind == "unserializable" else rng.choice(kept) if kind == "wrong-type-one" else None
        self.fault = (s.uid, kind, bad)
        snap = None
        saved = None
        if kind == "unreadable":
            r = rng.choice(locals_)
            path = Path(self.g.artifacts[r.name].storage.generate_partition().path)
            saved = (path, path.read_bytes())
            path.write_bytes(b'{"truncated": [')
            keys = self.step_keys(vals)
        snap = self.g.snapshot()
        if kind == "vanished":  # The file is gone by the time the step reads it.
            r = rng.choice(locals_)
            path = Path(self.g.artifacts[r.name].storage.generate_partition().path)
            saved = (path, path.read_bytes())
            path.unlink()
        self.log.clear()
        limit = resource.getrlimit(resource.RLIMIT_FSIZE)
        raised = None
        try:
            if kind == "disk-full":
                resource.setrlimit(resource.RLIMIT_FSIZE, (rng.choice([0, 1, 2]), limit[1]))
            try:
                snap.build()
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, limit)
        except BaseException as e:  # noqa: BLE001
            if type(e).__name__ == "CaseTimeout" or isinstance(e, (Violation, Inconclusive)):
                raise
            raised = e
        finally:
            self.fault = None
        ctx.n[f"fault_{kind}"] += 1
        ctx.check(raised is not None, f"build succeeded although step {s.uid} failed ({kind})")
        ran = [uid for uid, _, _ in self.log]
        ctx.check(len(ran) == len(set(ran)), "a step ran more than once in a failed build")
        # Which steps completed before the failure? Those that ran, except the failing one. With a full
        # disk or unreadable raw data, the failing step is the last one attempted.
        failed = {s.uid}
        if kind == "disk-full":
            ctx.check(len(ran) >= 1, "disk-full fault never reached")
            failed = {ran[-1]}
        elif kind in ("unreadable", "vanished"):
            failed = {x.uid for x in self.steps if any(src == ("r", r.name) for _, src in x.inputs)}
        by_uid = {x.uid: x for x in self.steps}
        completed = {u for u in ran if u not in failed}
        downstream = set(failed)
        for x in self.steps:
            if any(src[0] == "s" and src[1] in downstream for _, src in x.inputs + x.gates):
                downstream.add(x.uid)
        # Only what the failing step was built from is certain to have been looked at before the failure.
        looked_at = {u for u in ran if u not in failed}
        todo = [by_uid[u] for u in ran]
        while todo:
            for _, src in (x := todo.pop()).inputs + x.gates:
                if src[0] == "s" and src[1] not in looked_at:
                    looked_at.add(src[1])
                    todo.append(by_uid[src[1]])
        # Depending on where the failure struck, other outputs of the failed step may have been stored.
        may_publish = set()
        if kind in ("unserializable", "wrong-type-one"):
            may_publish = {n for j, n in self.outputs(s) if j != bad}
        elif kind == "disk-full":
            may_publish = {n for u in failed for _, n in self.outputs(by_uid[u]) if by_uid[u].storages[n] == "literal"}
        expect = {x.uid: self.expectation(x, keys[x.uid]) for x in self.steps}
        for x in self.steps:
            for j, n in self.outputs(x):
                if n in may_publish:
                    self.partial.add((self.location(x, n), (keys[x.uid], j)))
                if expect[x.uid] == "mustnot" and x.uid in looked_at:
                    self.known.add((self.bid, self.location(x, n), (keys[x.uid], j)))
        for x in self.steps:
            for j, n in self.outputs(x):
                self.touched.add((self.bid, self.location(x, n)))
                try:
                    got = self.read(snap, n, x.out_types[j])
                except FileNotFoundError:
                    ctx.n["unpublished_after_failure"] += 1
                    ctx.check(x.uid not in completed, f"completed step's output {n} is not readable after a later failure")
                    continue
                ctx.n["readable_after_failure"] += 1
                lk = (self.location(x, n), (keys[x.uid], j))
                half = n in may_publish or lk in self.partial or lk in self.disk or (self.bid, *lk) in self.stored
                ctx.check(x.uid not in downstream or half, f"output {n} of {'the failed step' if x.uid in failed else 'a step after the failed one'} is readable ({kind})", value=got)
                ctx.eq(canon(got), canon(vals[("s", x.uid, j)]), f"output {n} readable after a failed build ({kind})")
        for u in completed:
            self.record(by_uid[u], keys[u], snap)
        if saved:
            saved[0].write_bytes(saved[1])
        ctx.seen(("fault", kind, len(s.out_types), tuple(sorted(s.storages.values())), len(self.steps), len(completed)))
        return kind

    def close(self):
        self.ctx.rmdir(self.root)


ALL_TAGS = ["prod", "Prod", "PROD", " prod", "prod ", "prod\n", "pro", "production", "dev", "Dev", "v1", "V1", "v1.0", "v1 ", "é", "e\u0301", "", " ", "None", "0", "latest", "*", "a/b"]


def _tag_ops(self):
    """Tags: resolve to the snapshot last assigned under that graph name; overwrite must be explicit."""
    rng, ctx = self.rng, self.ctx
    if not self.snaps:
        return
    for _ in range(rng.choice([1, 2, 3])):
        snap, vals, bid = rng.choice(self.snaps)
        tag = rng.choice(rng.choice([["prod", "dev", "v1", "é", ""], ALL_TAGS]))
        key = (bid, snap.name, tag)
        conn_arg = {}
        if tag_overwrite := rng.random() < 0.4:
            conn_arg["overwrite"] = True
        elif rng.random() < 0.5:
            conn_arg["overwrite"] = False
        if key in self.tags and not tag_overwrite:
            ctx.raises(ValueError, lambda: snap.tag(tag, **conn_arg), "re-assigning an existing tag without overwrite")
            ctx.n["tag_refused"] += 1
        else:
            if rng.random() < 0.3:
                with snap.backend.connect() as conn:
                    snap.tag(tag, connection=conn, **conn_arg)
            else:
                snap.tag(tag, **conn_arg)
            self.tags[key] = (snap, vals)
            ctx.n["tag_assigned"] += 1
    backends = {bid: s.backend for s, _, bid in self.snaps}
    for (bid, name, tag), (snap, vals) in self.tags.items():
        if bid not in backends:
            continue
        got = GraphSnapshot.from_tag(name, tag, connectable=backends[bid])
        ctx.n["tag_resolved"] += 1
        ctx.check(got == snap and got.id == snap.id and got.name == name, f"tag {tag!r} of {name} resolved to another snapshot", got=got.id, want=snap.id)
        if rng.random() < 0.3:
            for n, (want, t) in vals.items():
                ctx.eq(canon(self.read(got, n, t)), canon(want), f"{n} read through tag {tag!r}")
    for bid, b in backends.items():
        names = {s.name for s, _, bb in self.snaps if bb == bid}
        for name in names:
            missing = "never-" + self.uid
            ctx.raises(ValueError, lambda: GraphSnapshot.from_tag(name, missing, connectable=b), "unknown tag")
            for near in ALL_TAGS:  # other spellings are other tags
                if (bid, name, near) not in self.tags:
                    ctx.raises(ValueError, lambda: GraphSnapshot.from_tag(name, near, connectable=b), f"unknown tag {near!r}")
        for (b2, name, tag) in list(self.tags):
            for other in names - {name}:
                if (bid, other, tag) not in self.tags:
                    ctx.raises(ValueError, lambda: GraphSnapshot.from_tag(other, tag, connectable=b), "tag of another graph name")


World.tag_ops = _tag_ops
