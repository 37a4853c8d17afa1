"""C17: partitioned steps build exactly the mapped partitions from the mapped inputs.

Random graphs of partitioned steps (many-to-one, one-to-many, filters, joins, crosses, broadcasts, map-only
control inputs, several outputs) run over histories of added, changed and removed input partitions. The
monitors are the user's own `map` (which must be given every current partition of each input once) and
`build` (whose argument rows must be those of the mapped partitions), a from-scratch evaluator for every
expected output partition, and a three-valued model of which output partitions are already complete.
"""
import datetime
import hashlib
import json
import os
import pickle
from collections import Counter
from pathlib import Path
from typing import Annotated, Any  # noqa: F401 (generated code)

import numpy as np

from arti import Artifact, Graph, PartitionDependencies, PartitionKey, Producer, StoragePartitions, producer
from arti import types as T
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.internal.mappings import frozendict
from arti.partitions import DateField, Int8Field, Int32Field, Int64Field
from arti.storage.google.cloud.storage import GCSFile
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile

from core import Violation, some_error
from gcs import Emulator

PROP = "C17"
CASES = {"quick": 1400, "thorough": 16000}
SECONDS = {"quick": 100, "thorough": 1200}

EMU = None


def setup(ctx):
    global EMU
    EMU = Emulator()


def teardown(ctx):
    EMU.stop()


KINDS = {"i64": (T.Int64, Int64Field), "i8": (T.Int8, Int8Field), "i32": (T.Int32, Int32Field), "d": (T.Date, DateField)}


KEY_VALUES: dict = {}  # values of further kinds of keys (set by C27)


def key_value(rng, kind, small):
    if kind in KEY_VALUES:
        return KEY_VALUES[kind](rng)
    if kind == "d":
        return datetime.date(2020, 1, 1) + datetime.timedelta(days=rng.randrange(6 if small else 4000))
    n = rng.randrange(-3, 4) if small else rng.randrange(-120, 120)
    return n


# Where else artifacts may be, and in which other formats (set by C27).
EXTRA_STORAGES: dict = {}
EXTRA_FORMATS: dict = {}
EXTRA_DUMPS: dict = {}


def digest(*parts) -> str:
    return hashlib.sha256(repr(parts).encode()).hexdigest()[:12]


def number(*parts) -> int:
    return int(digest(*parts), 16)


class Node:
    """A partitioned (or not) artifact: named key fields plus the location and format of its partitions."""

    def __init__(self, name, fields, where, fmt):
        self.name, self.fields, self.where, self.fmt = name, fields, where, fmt

    def type(self):
        return T.Collection(element=T.Struct(fields={**{f: KINDS[k][0]() for f, k in self.fields}, "v": T.String()}), partition_by=tuple(f for f, _ in self.fields))

    def pk(self, key):
        return PartitionKey({f: KINDS[k][1](value=v) for (f, k), v in zip(self.fields, key)})

    def key(self, pk):
        return tuple(pk[f].value for f, _ in self.fields)

    def artifact(self, root, stem):
        storage = {
            "local": lambda: LocalFile.rooted_at(root / stem),
            "gcs": lambda: GCSFile(bucket="bkt", path=f"{root.name}/{stem}/{{graph_name}}/{{names}}/{{partition_key_spec}}/{{input_fingerprint}}/{{name}}{{extension}}"),
            "literal": lambda: StringLiteral(),
            **EXTRA_STORAGES,
        }[self.where]()
        return Artifact(type=self.type(), format={"json": JSON, "pickle": Pickle, **EXTRA_FORMATS}[self.fmt](), storage=storage)

    def dump(self, rows):
        return {"json": lambda x: json.dumps(x).encode(), "pickle": pickle.dumps, **EXTRA_DUMPS}[self.fmt](rows)


class Step:
    pass


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.root = ctx.tmpdir()
        self.uid = f"{rng.getrandbits(40):x}"
        self.remote = rng.random() < 0.12
        self.path_tags: dict = {}
        self.raws: dict = {}  # name -> (Node, {key: rows})
        self.nodes: dict = {}
        self.steps: list[Step] = []
        self.backend, self.bid = self.new_backend(), 0
        self.known: set = set()
        self.touched: set = set()
        self.disk: set = set()
        self.stored: set = set()
        self.paths: dict = {}
        self.classes: dict = {}
        self.maplog: list = []
        self.buildlog: list = []
        self.bad: str | None = None
        self.bad_nth, self.bad_kind = 0, "raise"
        self.reject = False
        self.fail_rate = 0.12
        self.hollow: tuple | None = None
        self.misnamed: tuple | None = None
        for i in range(rng.choice([1, 2, 2, 3])):
            self.add_raw(i)
        for i in range(rng.choice([1, 2, 3, 4])):
            self.add_step(i)

    def new_backend(self):
        return MemoryBackend()

    # ------------------------------------------------------------ definition
    def store(self, produced):
        r = self.rng.random()
        if produced and r < 0.25:
            return "literal", "json"
        if self.remote and r < 0.5:
            return "gcs", self.rng.choice(["json", "pickle"])
        return "local", self.rng.choice(["json", "json", "pickle"])

    def add_raw(self, i):
        rng = self.rng
        n = rng.choice([0, 1, 1, 1, 2]) if i else rng.choice([1, 1, 2])
        names = rng.sample(["k", "date", "a", "b_c"], n)
        fields = tuple((f, rng.choice(list(KINDS))) for f in names)
        where, fmt = self.store(False)
        node = Node(rng.choice(["", "ns."]) + f"raw{i}", fields, where, fmt)
        parts = {}
        for _ in range(rng.choice([1, 2, 3, 5])):
            parts[self.new_key(node)] = self.rows()
        self.raws[node.name] = (node, parts)
        self.nodes[node.name] = node

    def new_key(self, node):
        return tuple(key_value(self.rng, k, True) for _, k in node.fields)

    def rows(self):
        rng = self.rng
        pool = [[{"v": "same"}], []] if rng.random() < 0.15 else None
        return rng.choice(pool) if pool else [{"v": f"x{rng.getrandbits(40):x}"} for _ in range(rng.choice([1, 1, 2, 3]))]

    def add_step(self, i):
        rng = self.rng
        s = Step()
        s.uid = f"Map{self.uid}x{i}"
        s.salt = s.rule_salt = 0
        partitioned = [n for n in self.nodes.values() if n.fields]
        main = rng.choice(partitioned)
        s.params = [("p0", main.name)]
        for j in range(rng.choice([0, 0, 1, 1, 2])):
            s.params.append((f"p{j + 1}", rng.choice(list(self.nodes))))
        s.modes = {p: rng.choice(["all", "match", "some"]) for p, _ in s.params}
        # An input that only decides the mapping and is not read by the step.
        s.control = None
        if rng.random() < 0.25:
            s.control = ("ctl", rng.choice(list(self.nodes)))
        s.rule = rng.choice(["identity", "identity", "filter", "mod", "random", "window", "drop", "all", "cross"])
        if s.rule == "cross" and (len(s.params) < 2 or not self.nodes[s.params[1][1]].fields):
            s.rule = "identity"
        if s.rule == "drop" and len(main.fields) < 2:
            s.rule = "mod"
        s.fields = {
            "identity": lambda: main.fields,
            "filter": lambda: main.fields,
            "window": lambda: main.fields,
            "mod": lambda: (("m", "i64"),),
            "random": lambda: (("r", rng.choice(["i8", "i32"])), ("d", "d"))[: rng.choice([1, 2])],
            "drop": lambda: main.fields[:1],
            "all": lambda: (),
            "cross": lambda: tuple((f"l_{f}", k) for f, k in main.fields) + tuple((f"r_{f}", k) for f, k in self.nodes[s.params[1][1]].fields),
        }[s.rule]()
        s.lossy = rng.random() < 0.2
        s.outs = []
        for j in range(rng.choice([1, 1, 1, 2, 3])):
            where, fmt = self.store(True)
            node = Node(rng.choice(["", "out."]) + f"s{i}o{j}", s.fields, where, fmt)
            s.outs.append((node, rng.random() < 0.85))
        if not any(k for _, k in s.outs):
            s.outs[0] = (s.outs[0][0], True)
        for node, kept in s.outs:
            if kept:
                self.nodes[node.name] = node
        s.style = rng.choice(["class", "decorator"])
        self.steps.append(s)

    def step_class(self, s):
        if s.uid in self.classes:
            return self.classes[s.uid]
        params = [p for p, _ in s.params]
        ctl = [s.control[0]] if s.control else []
        ns = {"StoragePartitions": StoragePartitions, "PartitionDependencies": PartitionDependencies, "Annotated": Annotated, "_map": self.map_impl, "_build": self.build_impl, "_s": s}
        for p, n in s.params:
            ns[f"T_{p}"] = self.nodes[n].type()
        rets = []
        for j, (node, _) in enumerate(s.outs):
            ns[f"O_{j}"] = node.type()
            rets.append(f"Annotated[list, O_{j}]")
        ret = rets[0] if len(rets) == 1 else f"tuple[{', '.join(rets)}]"
        both = [*params, *ctl]
        self.rng.shuffle(both)
        exec(  # noqa: S102
            f"def map({', '.join(f'{p}: StoragePartitions' for p in both)}) -> PartitionDependencies:\n    return _map(_s, dict({', '.join(f'{p}={p}' for p in both)}))\n"
            f"def {s.uid}({', '.join(f'{p}: Annotated[list, T_{p}]' for p in params)}) -> {ret}:\n    return _build(_s, dict({', '.join(f'{p}={p}' for p in params)}))\n",
            ns,
        )
        if s.style == "decorator" and not s.control:
            cls = producer(map=ns["map"], validate_outputs=self.validate_impl)(ns[s.uid])
        else:
            cls = type(s.uid, (Producer,), {"validate_outputs": staticmethod(self.validate_impl), "__module__": __name__, "__annotations__": {p: Artifact for p in both}, "map": staticmethod(ns["map"]), "build": staticmethod(ns[s.uid])})
        self.classes[s.uid] = cls
        return cls

    def define(self):
        g = Graph(name="g" + self.uid[:3], backend=self.backend, path_tags=self.path_tags)
        with g:
            for name, (node, _) in self.raws.items():
                g.artifacts[name] = node.artifact(self.root, "raws")
            for s in self.steps:
                inst = self.step_class(s)(**{p: g.artifacts[n] for p, n in [*s.params, *([s.control] if s.control else [])]})
                outs = inst.out(*(node.artifact(self.root, "outs") for node, _ in s.outs))
                outs = outs if isinstance(outs, tuple) else (outs,)
                todo = [(node.name, o) for (node, kept), o in zip(s.outs, outs) if kept]
                self.rng.shuffle(todo)
                for name, o in todo:
                    g.artifacts[name] = o
        self.g = g

    # ------------------------------------------------------------ the users' functions
    def rule(self, s, avail, control):
        """{out key: {param: [in keys]}} for the available keys of every input."""
        main = sorted(avail["p0"])
        out: dict = {}

        def add(o, k):
            out.setdefault(o, []).append(k)

        for k in main:
            if s.rule == "identity":
                add(k, k)
            elif s.rule == "filter":
                if number(s.uid, s.rule_salt, k) % 2:
                    add(k, k)
            elif s.rule == "window":
                add(k, k)
                if isinstance(k[0], str):
                    continue
                first = k[0] + (datetime.timedelta(days=1) if isinstance(k[0], datetime.date) else 1)
                if (nxt := (first, *k[1:])) in avail["p0"]:
                    add(nxt, k)
            elif s.rule == "mod":
                add((number(s.uid, s.rule_salt, k) % 3,), k)
            elif s.rule == "random":
                for j in range(1 + number(s.uid, s.rule_salt, k, "n") % 2):
                    n = number(s.uid, s.rule_salt, k, j)
                    o = (n % 4, datetime.date(2000, 1, 1 + n % 3))[: len(s.fields)]
                    if k not in out.get(o, ()):
                        add(o, k)
            elif s.rule == "drop":
                add(k[:1], k)
            elif s.rule == "all":
                add((), k)
            elif s.rule == "cross":
                for k2 in avail["p1"]:
                    add((*k, *k2), k)
        res = {}
        for o, ks in out.items():
            deps = {"p0": ks}
            for p, n in s.params[1:]:
                if s.rule == "cross" and p == "p1":
                    deps[p] = [o[len(ks[0]):]]
                elif s.modes[p] == "all":
                    deps[p] = sorted(avail[p])
                elif s.modes[p] == "match" and [f for f in self.nodes[n].fields] == list(s.fields):
                    deps[p] = [o] if o in avail[p] else []
                else:
                    deps[p] = [k for k in sorted(avail[p]) if number(s.uid, k, o) % 2] or sorted(avail[p])[:1]
            if all(deps.values()) and (control is None or number(s.uid, sorted(control), o) % 3):
                res[o] = deps
        return res

    def map_impl(self, s, kwargs):
        nodes = {p: self.nodes[n] for p, n in [*s.params, *([s.control] if s.control else [])]}
        given = {p: [nodes[p].key(x.partition_key) for x in parts] for p, parts in kwargs.items()}
        self.maplog.append((s.uid, {p: sorted(ks) for p, ks in given.items()}))
        by = {p: {nodes[p].key(x.partition_key): x for x in parts} for p, parts in kwargs.items()}
        ctl = given.pop("ctl", None)
        plan = self.rule(s, {p: set(k) for p, k in given.items()}, None if ctl is None else set(ctl))
        out = Node("", s.fields, "", "")
        if self.hollow and self.hollow[0] == s.uid:
            plan[self.hollow[1]] = {**plan[self.hollow[1]], self.hollow[2]: []}
        misfit = None
        if self.misnamed and self.misnamed[0] == s.uid:
            if self.misnamed[2] == "misfit":
                misfit = self.misnamed[1]
            _, o, how, p, other = self.misnamed
            deps = dict(plan[o])
            if how in ("missing", "renamed"):
                deps.pop(p)
            if how in ("extra", "renamed"):
                by[other] = by[p]
                deps[other] = plan[o][p]
            plan[o] = deps
        items = list(plan.items())
        self.rng.shuffle(items)

        def pk(o):
            key = out.pk(o)
            if o != misfit:
                return key
            less = dict(list(key.items())[1:])
            return PartitionKey(self.rng.choice(([less] if key else []) + [{**key, "zz": Int64Field(value=1)}] + ([{**less, "zz": Int64Field(value=1)}] if key else [])))

        return PartitionDependencies({pk(o): frozendict({p: tuple(by[p][k] for k in ks) for p, ks in deps.items()}) for o, deps in items})

    @staticmethod
    def canon_args(kwargs):
        return repr(sorted((p, sorted(map(repr, rows))) for p, rows in kwargs.items()))

    def evaluate(self, s, kwargs):
        seed = digest(s.uid, s.salt, self.canon_args(kwargs))
        if s.lossy:
            seed = str(int(seed, 16) % 2)
        return [[{"v": digest(seed, j, i)} for i in range(number(seed, j) % 3)] for j in range(len(s.outs))]

    def build_impl(self, s, kwargs):
        self.buildlog.append((s.uid, self.canon_args(kwargs)))
        outs = self.evaluate(s, kwargs)
        if self.bad == s.uid and len([u for u, _ in self.buildlog if u == s.uid]) == self.bad_nth:
            kind = self.bad_kind
            if kind == "raise":
                raise some_error(self.rng, "boom")
            if kind == "interrupt":
                raise self.rng.choice([KeyboardInterrupt, SystemExit])("boom")
            if kind == "validate":
                self.reject = True
            elif kind == "validate-raise":
                self.reject = None
            elif kind == "unserializable":
                outs = [[{"v": lambda: None}] for _ in outs]
            elif kind == "wrong-count":
                return (*outs, [])
            elif kind == "wrong-type":
                outs = ["not rows" for _ in outs]
        return outs[0] if len(outs) == 1 else tuple(outs)

    def validate_impl(self, *outputs: Any) -> tuple[bool, str]:
        reject, self.reject = self.reject, False
        if reject is None:
            raise some_error(self.rng, "validation boom")
        passed = not reject
        return self.rng.choice([passed, np.bool_(passed)]), "rejected" if reject else ""

    # ------------------------------------------------------------ raw data
    def location(self, node, key):
        return self.g.artifacts[node.name].storage.generate_partition(partition_key=node.pk(key))

    def put(self, node, key, rows, how):
        part = self.location(node, key)
        if how == "graph":
            self.g.write(rows, artifact=self.g.artifacts[node.name], partition_key=node.pk(key))
            return
        self.overwrite(node.where, part, node.dump(rows))

    def overwrite(self, where, part, data):
        if where == "gcs":
            EMU.put(part.path, data)
        else:
            p = Path(part.path)
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(data)

    def place(self, part):
        return part.path

    def erase(self, where, place):
        if where == "gcs":
            EMU.delete(place)
        elif os.path.exists(place):
            os.unlink(place)

    def remove(self, node, key):
        self.erase(node.where, self.place(self.location(node, key)))

    def start(self):
        self.define()
        for node, parts in self.raws.values():
            for key, rows in parts.items():
                self.put(node, key, rows, self.rng.choice(["graph", "bytes"]))

    def mutate(self, ops=None):
        rng = self.rng
        op = rng.choice(ops or ["change", "change", "add", "add", "remove", "remove", "swap", "revert", "same", "fresh", "fresh-remap", "redefine", "lose", "many"])
        self.ctx.n[f"op_{op}"] += 1
        node, parts = rng.choice(list(self.raws.values()))
        how = rng.choice(["graph", "bytes"])
        if op == "many":
            for _ in range(rng.randint(2, 5)):
                node, parts = rng.choice(list(self.raws.values()))
                key = rng.choice([self.new_key(node), rng.choice(list(parts))])
                if key in parts and len(parts) > 1 and rng.random() < 0.4:
                    del parts[key]
                    self.remove(node, key)
                else:
                    parts[key] = self.rows()
                    self.put(node, key, parts[key], how)
        elif op in ("change", "same", "revert", "swap"):
            key = rng.choice(list(parts))
            if op == "change":
                parts[key] = self.rows()
            elif op == "revert":
                seen = getattr(self, "history", {}).get((node.name, key), [parts[key]])
                parts[key] = rng.choice(seen)
            elif op == "swap":
                k2 = rng.choice(list(parts))
                parts[key], parts[k2] = parts[k2], parts[key]
                self.put(node, k2, parts[k2], how)
            self.put(node, key, parts[key], how)
        elif op == "add":
            key = self.new_key(node)
            parts[key] = self.rows()
            self.put(node, key, parts[key], how)
        elif op == "remove":
            if len(parts) > 1:
                key = rng.choice(list(parts))
                del parts[key]
                self.remove(node, key)
        elif op in ("fresh", "fresh-remap", "lose"):
            if op == "fresh-remap":
                s = rng.choice(self.steps)
                # A changed mapping (and so `build` salt stays: the values depend on the mapped rows only).
                s.rule_salt = rng.getrandbits(8)
            if op == "lose":
                gone = [x for x in self.disk if x in self.paths]
                if gone:
                    for x in rng.sample(sorted(gone, key=repr), 1 + rng.randrange(min(3, len(gone)))):
                        for path in self.paths.pop(x):
                            self.erase(*path)
                        self.disk.discard(x)
                        self.ctx.n["lost_partitions"] += 1
            self.bid += 1
            self.backend = self.new_backend()
            self.define()
        elif op == "redefine":
            self.define()
        hist = self.__dict__.setdefault("history", {})
        for node, parts in self.raws.values():
            for key, rows in parts.items():
                if rows not in hist.setdefault((node.name, key), []):
                    hist[(node.name, key)].append(rows)
        return op

    # ------------------------------------------------------------ oracle
    def expected(self):
        """rows[name][key], content[name][key], and per step {out key: (args, dep key)}."""
        rows = {n: dict(parts) for n, (_, parts) in self.raws.items()}
        content = {n: {k: node.dump(r) for k, r in parts.items()} for n, (node, parts) in self.raws.items()}
        plans = {}
        for s in self.steps:
            avail = {p: set(rows[n]) for p, n in s.params}
            plan = self.rule(s, avail, set(rows[s.control[1]]) if s.control else None)
            plans[s.uid] = {}
            for node, kept in s.outs:
                if kept:
                    rows[node.name], content[node.name] = {}, {}
            for o, deps in plan.items():
                kwargs = {p: [r for k in deps[p] for r in rows[n][k]] for p, n in s.params}
                dep = (s.uid, tuple((p, tuple(sorted(content[n][k] for k in deps[p]))) for p, n in s.params))
                plans[s.uid][o] = (self.canon_args(kwargs), dep, deps)
                outs = self.evaluate(s, kwargs)
                for (node, kept), out in zip(s.outs, outs):
                    if kept:
                        rows[node.name][o] = out
                        content[node.name][o] = node.dump(out)
        return rows, content, plans

    def kept(self, s):
        return [node for node, kept in s.outs if kept]

    def expectation(self, s, o, dep):
        ids = [(node.name, o, dep) for node in self.kept(s)]
        if all((self.bid, *x) in self.known for x in ids):
            return "mustnot"
        if any((self.bid, *x) not in self.stored and x not in self.disk for x in ids):
            return "must"
        if all((self.bid, *x) in self.known or ((self.bid, x[0]) not in self.touched and x in self.disk) for x in ids):
            return "mustnot"
        return "may"

    def build(self):
        ctx, rng = self.ctx, self.rng
        rows, content, plans = self.expected()
        expect = {(s.uid, o): self.expectation(s, o, plans[s.uid][o][1]) for s in self.steps for o in plans[s.uid]}
        self.maplog.clear()
        self.buildlog.clear()
        snap = self.g.snapshot()
        fail = None
        musts = [(s.uid, o) for s in self.steps for o in plans[s.uid] if expect[s.uid, o] == "must"]
        if musts and rng.random() < self.fail_rate:
            uid, _ = rng.choice(musts)
            self.bad, self.bad_nth = uid, 1 + rng.randrange(sum(u == uid for u, _ in musts))
            self.bad_kind = rng.choice(["raise", "raise", "interrupt", "validate", "validate-raise", "unserializable", "wrong-count", "wrong-type"])
            try:
                snap.build()
            except BaseException as e:  # noqa: BLE001
                if type(e).__name__ == "CaseTimeout" or isinstance(e, Violation):
                    raise
                fail = e
            finally:
                self.bad, self.reject = None, False
            ctx.check(fail is not None, f"a failing partition ({self.bad_kind}) did not fail the build")
            ctx.n["failed_builds"] += 1
            ctx.n[f"fault_{self.bad_kind}"] += 1
            # Partitions completed before the failure stay complete; what exactly ran is checked below.
            last = self.buildlog[-1]
            done = Counter(self.buildlog[:-1])
            for s in self.steps:
                names = {node.name: self.published(snap, node) for node in self.kept(s)}
                # (Unless an earlier loss left partitions of only some outputs behind.)
                partial = any((node.name, o, dep) in self.disk or (self.bid, node.name, o, dep) in self.stored for o, (_, dep, _) in plans[s.uid].items() if expect[s.uid, o] != "mustnot" for node in self.kept(s))
                ctx.check(partial or len({frozenset(v) for v in names.values()}) == 1, "after a failed build, the outputs of one step have different partitions", names=names)
                # Whatever is readable is complete and right; whatever ran before the failure is there; the failed one is not.
                for node in self.kept(s):
                    for p in self.parts(snap, node):
                        k = node.key(p.partition_key)
                        ctx.check(k in rows[node.name], f"partition {k} of {node.name} after a failed build was never mapped")
                        ctx.eq(snap.read(self.g.artifacts[node.name], annotation=list, storage_partition_snapshots=(p,)), rows[node.name][k], f"partition {k} of {node.name} after a failed build ({self.bad_kind})")
                        ctx.n["partitions_read_after_failure"] += 1
                    have = Counter(plans[s.uid][o][0] for o in names[node.name])
                    for (u, a), c in done.items():
                        ctx.check(u != s.uid or have[a] >= c, f"a partition of {node.name} completed before the failure is not readable", kind=self.bad_kind)
                    if s.uid == last[0] and not partial:
                        total = sum(a == last[1] for a, _, _ in plans[s.uid].values())
                        ctx.check(have[last[1]] < total, f"the failed partition of {node.name} is readable ({self.bad_kind})")
                for o, (args, dep, deps) in plans[s.uid].items():
                    if all(o in v for v in names.values()):
                        for node in self.kept(s):
                            self.record(snap, node, o, dep)
                for node in self.kept(s):
                    if not self.published(snap, node) and plans[s.uid]:
                        # the backend may have looked at this storage already, while nothing was published
                        self.touched.add((self.bid, node.name))
            ctx.seen(("failed", self.bad_kind, self.bad_nth, len(done), len(self.steps)))
            # The rest must complete on retry without re-running what completed.
            expect = {(s.uid, o): self.expectation(s, o, plans[s.uid][o][1]) for s in self.steps for o in plans[s.uid]}
            self.maplog.clear()
            self.buildlog.clear()
            if rng.random() < 0.5:  # otherwise: carry on building the very same snapshot
                snap = self.g.snapshot()
        snap.build()
        ctx.n["builds"] += 1
        # 1. whatever was mapped saw exactly the current partitions
        for uid, given in self.maplog:
            s = next(x for x in self.steps if x.uid == uid)
            for p, n in [*s.params, *([s.control] if s.control else [])]:
                ctx.eq(given[p], sorted(rows[n]), f"partitions of {n} given to the map of {uid}")
        # 2. exactly the changed partitions ran, on exactly the mapped inputs
        ran = Counter(self.buildlog)
        for s in self.steps:
            must, may = Counter(), Counter()
            for o, (args, dep, deps) in plans[s.uid].items():
                e = expect[s.uid, o]
                ctx.n[f"partition_{e}"] += 1
                if e == "must":
                    must[args] += 1
                elif e == "may":
                    may[args] += 1
                ctx.seen(("run", s.rule, e, len(deps), tuple(len(v) for v in deps.values()), len(s.outs), s.lossy, tuple(n.where for n in self.kept(s))))
            got = Counter({a: c for (u, a), c in ran.items() if u == s.uid})
            for a in {*got, *must}:
                ctx.check(must[a] <= got[a] <= must[a] + may[a], f"step {s.uid} ({s.rule}) ran {got[a]} times on these inputs", must=must[a], may=may[a], inputs=a[:300])
            ctx.n["partition_runs"] += sum(got.values())
        # 3. the snapshot's partitions are exactly the mapped keys, with the values of their mapped inputs
        for s in self.steps:
            for node in self.kept(s):
                art = self.g.artifacts[node.name]
                parts = self.parts(snap, node)
                keys = [node.key(p.partition_key) for p in parts]
                ctx.check(sorted(keys) == sorted(plans[s.uid]), f"partitions of {node.name} ({s.rule}) in the snapshot", got=sorted(keys), want=sorted(plans[s.uid]))
                for p, k in zip(parts, keys):
                    got = snap.read(art, annotation=list, storage_partition_snapshots=(p,))
                    ctx.eq(got, rows[node.name][k], f"partition {k} of {node.name} ({s.rule})")
                    ctx.n["partition_reads"] += 1
                if keys:
                    got = snap.read(art, annotation=list)
                    ctx.eq(sorted(map(repr, got)), sorted(repr(r) for k in keys for r in rows[node.name][k]), f"all rows of {node.name}")
                else:
                    ctx.raises(FileNotFoundError, lambda: snap.read(art, annotation=list), f"reading {node.name} without any partition")
                    ctx.n["empty_outputs"] += 1
                for o, (args, dep, _) in plans[s.uid].items():
                    self.record(snap, node, o, dep)
        for name, (node, parts) in self.raws.items():
            keys = [node.key(p.partition_key) for p in self.parts(snap, node)]
            ctx.check(sorted(keys) == sorted(parts), f"partitions of raw {name} in the snapshot", got=keys, want=sorted(parts))

    def build_hollow(self):
        """A map that selects no partition of an input: refused, or built from no rows - never from other rows."""
        ctx, rng = self.ctx, self.rng
        if rng.random() < 0.7:  # otherwise: a snapshot that was built before
            self.backend = self.new_backend()
            self.define()
        rows, content, plans = self.expected()
        todo = [(s, o, p) for s in self.steps for o in plans[s.uid] for p, _ in s.params]
        if not todo:
            return
        s, o, p = rng.choice(todo)
        self.hollow = (s.uid, o, p)
        self.buildlog.clear()
        kwargs = {q: [r for k in ([] if q == p else plans[s.uid][o][2][q]) for r in rows[n][k]] for q, n in s.params}
        allowed = {plans[s.uid][x][0] for x in plans[s.uid] if x != o} | {self.canon_args(kwargs)}
        snap = self.g.snapshot()
        try:
            snap.build()
            refused = False
        except FileNotFoundError:
            refused = True
        finally:
            self.hollow = None
        for uid, args in self.buildlog:
            if uid == s.uid:
                ctx.check(args in allowed, f"step {uid} ({s.rule}) ran on rows that were not mapped (no partition of {p} was, for {o})", got=args[:300])
        if not refused:
            for node in self.kept(s):
                ctx.eq(sorted(self.published(snap, node)), sorted(plans[s.uid]), f"partitions of {node.name}, nothing of {p} being mapped to {o}")
            ctx.check((s.uid, self.canon_args(kwargs)) in self.buildlog or not self.buildlog, "neither refused nor built from no rows")
        ctx.n["empty_selections"] += 1

    def build_misnamed(self):
        """A map naming other inputs than the step reads is refused, and the step does not run on such a selection."""
        ctx, rng = self.ctx, self.rng
        self.backend = self.new_backend()
        self.define()
        _, _, plans = self.expected()
        todo = [(s, o, p) for s in self.steps for o in plans[s.uid] for p, _ in s.params]
        if not todo:
            return
        s, o, p = rng.choice(todo)
        how = rng.choice(["missing", "extra", "extra", "renamed", "misfit", "misfit"])
        self.misnamed = (s.uid, o, how, p, rng.choice(["zz", *([s.control[0]] if s.control else []), p + "_", ""]))
        self.buildlog.clear()
        snap = self.g.snapshot()
        try:
            ctx.raises((ValueError, TypeError, KeyError), snap.build, f"a map naming other inputs than the step reads, or a partition the output cannot have ({how})")
        finally:
            self.misnamed = None
        allowed = {plans[s.uid][x][0] for x in plans[s.uid] if x != o}
        for uid, args in self.buildlog if how != "misfit" else ():
            ctx.check(uid != s.uid or args in allowed, f"step {uid} ran on a selection naming other inputs", got=args[:300])
        ctx.n["misnamed_inputs"] += 1

    def parts(self, snap, node):
        with self.backend.connect() as conn:
            return conn.read_snapshot_partitions(snap, node.name, self.g.artifacts[node.name])

    def published(self, snap, node):
        return {node.key(p.partition_key) for p in self.parts(snap, node)}

    def record(self, snap, node, o, dep):
        x = (node.name, o, dep)
        self.known.add((self.bid, *x))
        self.stored.add((self.bid, *x))
        self.touched.add((self.bid, node.name))
        if node.where != "literal":
            self.disk.add(x)
            for p in self.parts(snap, node):
                if node.key(p.partition_key) == o:
                    self.paths.setdefault(x, set()).add((node.where, self.place(p.storage_partition)))


def case(ctx, rng):
    w = World(ctx, rng)
    ops = []
    try:
        w.start()
        w.build()
        for _ in range(rng.choice([1, 3, 5, 8])):
            ops.append(w.mutate())
            w.build()
        if rng.random() < 0.4:
            w.build_hollow()
        if rng.random() < 0.2:
            w.build_misnamed()
        if len(ctx.samples) < 4:
            ctx.samples.append({"case": ctx.case_id, "ops": ops, "rules": [s.rule for s in w.steps], "outputs": [len(s.outs) for s in w.steps]})
    finally:
        ctx.rmdir(w.root)
