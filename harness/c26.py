"""Import order and plug-ins: every case is a fork in which `arti` is imported for the first time.

The child imports modules in a random order, with a random set of plug-in modules installed beside the library,
does a fixed list of jobs in a random order, and reports what came out; the parent compares with what is expected
and with the same jobs done after importing everything in the plain order.
"""

import importlib
import os
import pickle
import random
import signal
import sys
import textwrap
import traceback

from core import REPO, Violation

# Everything the library builds on is loaded once, here; the library itself only ever in the children.
for _name in ("pydantic", "numpy", "pandas", "pyarrow", "multimethod", "gcsfs", "google.cloud.bigquery", "typing_inspect", "box", "farmhash", "frozendict", "setuptools", "asyncio", "fsspec"):
    try:
        importlib.import_module(_name)
    except ImportError:
        pass

PROP = "C26"
CASES = {"quick": 1600, "thorough": 16000}
SECONDS = {"quick": 70, "thorough": 900}

SRC = REPO / "src" / "arti"
MODULES = sorted(".".join(p.relative_to(SRC.parent).with_suffix("").parts).removesuffix(".__init__") for p in SRC.rglob("*.py"))
assert not any(m == "arti" or m.startswith("arti.") for m in sys.modules), "the library must not be loaded yet"


# ------------------------------------------------------------------ jobs (run in the child)
def job_types():
    from arti.types.python import python_type_system as pts
    import datetime

    out = []
    for h in [int, float, str, bool, bytes, datetime.date, datetime.datetime, list[int], dict[str, float], tuple[int, ...], int | None, list[dict[str, int]], set[str]]:
        t = pts.to_artigraph(h, hints={})
        out.append((repr(h), repr(t), int(t.fingerprint), repr(pts.to_system(t, hints={}))))
    return out


def job_systems():
    import numpy as np
    import pyarrow as pa
    from google.cloud import bigquery

    from arti import types as T
    from arti.types.bigquery import bigquery_type_system
    from arti.types.numpy import numpy_type_system
    from arti.types.pandas import pandas_type_system
    from arti.types.pyarrow import pyarrow_type_system

    s = T.Collection(name="p.d.c", element=T.Struct(fields={"a": T.Int64(), "b": T.Boolean(), "c": T.Float64()}))
    out = [repr(pyarrow_type_system.to_system(t, hints={})) for t in (T.Int8(), T.String(), T.List(element=T.Date()), T.Struct(fields={"x": T.Boolean()}))]
    out.append(repr(pyarrow_type_system.to_artigraph(pa.list_(pa.int32()), hints={})))
    out += [repr(numpy_type_system.to_system(t, hints={})) for t in (T.Int8(), T.Float32(), T.Boolean())]
    out.append(repr(numpy_type_system.to_artigraph(np.dtype("int16"), hints={})))
    out.append(repr(bigquery_type_system.to_system(s, hints={}).schema) if isinstance(bigquery_type_system.to_system(s, hints={}), bigquery.Table) else "?")
    out.append([str(x) for x in pandas_type_system.to_system(s, hints={}).dtypes])
    return out


def job_pydantic():
    from pydantic import BaseModel

    from arti.types.pydantic import pydantic_type_system

    class M(BaseModel):
        x: int
        y: list[str]

    t = pydantic_type_system.to_artigraph(M, hints={})
    return repr(t), int(t.fingerprint)


def job_views():
    import datetime
    from typing import Annotated

    from arti.views import View

    out = []
    for h in [int, str, float, dict, list, list[int], dict[str, int], datetime.date, Annotated[int, "x"], bool, bytes]:
        try:
            out.append((repr(h), View.get_class_for(h).__name__))
        except ValueError as e:
            out.append((repr(h), type(e).__name__))
    for h in [object, complex, type]:
        try:
            out.append((repr(h), View.get_class_for(h).__name__))
        except ValueError:
            out.append((repr(h), "refused"))
    return out


def job_fingerprints():
    from arti import Annotation, Artifact, Fingerprint
    from arti import types as T
    from arti.formats.json import JSON
    from arti.formats.pickle import Pickle
    from arti.storage.literal import StringLiteral
    from arti.storage.local import LocalFile
    from arti.versions import SemVer
    from arti.versions import String

    class Note(Annotation):
        x: int

    arts = [
        Artifact(type=T.Int64(), format=JSON(), storage=StringLiteral(value="5")),
        Artifact(type=T.List(element=T.String()), format=Pickle(), storage=LocalFile(path="x{extension}"), annotations=[Note(x=1)]),
    ]
    return [int(a.fingerprint) for a in arts] + [int(SemVer(major=0, minor=1, patch=2).fingerprint), int(String(value="x").fingerprint), int(Fingerprint.from_string("é"))]


def _steps():
    from arti import producer

    @producer()
    def total(a: int, b: list[int]) -> int:
        return a + sum(b)

    @producer()
    def spread(a: int) -> tuple[list[int], str]:
        return [a, a + 1], f"<{a}>"

    return total, spread


def job_build():
    from arti import Artifact, Graph
    from arti import types as T
    from arti.formats.json import JSON
    from arti.formats.pickle import Pickle
    from arti.storage.literal import StringLiteral
    from arti.storage.local import LocalFile

    total, spread = _steps()
    with Graph(name="g") as g:
        g.artifacts.a = 5
        g.artifacts.b = Artifact(type=T.List(element=T.Int64()), format=JSON(), storage=LocalFile(path="raw/b.json"))
        g.artifacts.t = total(a=g.artifacts.a, b=g.artifacts.b).out(Artifact(type=T.Int64(), format=Pickle(), storage=LocalFile.rooted_at("out")))
        g.artifacts.l, g.artifacts.s = spread(a=g.artifacts.t).out(
            Artifact(type=T.List(element=T.Int64()), format=JSON(), storage=LocalFile.rooted_at("out")),
            Artifact(type=T.String(), format=JSON(), storage=StringLiteral()),
        )
    g.write([1, 2, 3], artifact=g.artifacts.b)
    snap = g.build()
    got = (snap.read(g.artifacts.t, annotation=int), snap.read(g.artifacts.l, annotation=list[int]), snap.read(g.artifacts.s, annotation=str))
    assert got == (11, [11, 12], "<11>"), got
    return got, int(g.fingerprint), int(snap.id)


def job_raw():
    from arti import Artifact, Graph
    from arti import types as T
    from arti.formats.pickle import Pickle
    from arti.storage.local import LocalFile

    with Graph(name="r") as g:
        g.artifacts.m = Artifact(type=T.Map(key=T.String(), value=T.Int64()), format=Pickle(), storage=LocalFile.rooted_at("raws"))
    g.write({"x": 1}, artifact=g.artifacts.m)
    return g.read(g.artifacts.m, annotation=dict), int(g.artifacts.m.fingerprint)


JOBS = {f.__name__: f for f in (job_types, job_systems, job_pydantic, job_views, job_fingerprints, job_build, job_raw)}


# ------------------------------------------------------------------ plug-ins
def plugin(rng, n: int) -> dict:
    """Source files of one plug-in: a Python class, a type system, a view on it, a format or a storage, and how to read and write them.

    Where its modules live (how deep, and in which of the namespace packages) is random.
    """
    u = f"plug{n}"
    deep = lambda: "".join(rng.choice(["", f"sub{n}.", f"vendor.acme{n}.", f"a{n}.b.c."]) for _ in range(1))  # noqa: E731
    where = {"lib": f"arti.types.{u}", "view": f"arti.views.{deep()}{u}", "io": f"arti.io.{deep()}{u}", "format": f"arti.formats.{u}", "storage": f"arti.storage.{u}"}
    kind = rng.choice(["view", "view", "format", "storage"])
    files = {}
    files[where["lib"]] = f"""
        from arti.types import TypeSystem, _ScalarClassTypeAdapter, Int64
        class Thing{n}:
            def __init__(self, v): self.v = v
            def __eq__(self, o): return type(o) is type(self) and o.v == self.v
            def __repr__(self): return f"Thing{n}({{self.v}})"
        system = TypeSystem(key="{u}")
        @system.register_adapter
        class Adapter(_ScalarClassTypeAdapter):
            artigraph = Int64
            system = Thing{n}
    """
    if kind == "view":
        files[where["view"]] = f"""
            from arti.views import View
            from {where['lib']} import Thing{n}, system
            class Thing{n}View(View):
                python_type = Thing{n}
                type_system = system
        """
        files[where["io"]] = f"""
            import json
            from collections.abc import Sequence
            from typing import Any
            from arti.io import register_reader, register_writer
            from arti.formats.json import JSON
            from arti.types import Type
            from arti.storage.local import LocalFilePartition
            from {where['lib']} import Thing{n}
            from {where['view']} import Thing{n}View
            @register_reader
            def read_{u}(type_: Type, format: JSON, storage_partitions: Sequence[LocalFilePartition], view: Thing{n}View) -> Any:
                return Thing{n}(json.load(open(storage_partitions[0].path)))
            @register_writer
            def write_{u}(data: Any, type_: Type, format: JSON, storage_partition: LocalFilePartition, view: Thing{n}View) -> None:
                import os
                os.makedirs(os.path.dirname(storage_partition.path), exist_ok=True)
                with open(storage_partition.path, "w") as f:
                    json.dump(data.v, f)
        """
    elif kind == "format":
        files[where["format"]] = f"""
            from arti.formats import Format
            from arti.types.python import python_type_system
            class Plain{n}(Format):
                extension: str = ".plain{n}"
                type_system = python_type_system
        """
        files[where["io"]] = f"""
            import ast, os
            from collections.abc import Sequence
            from typing import Any
            from arti.io import register_reader, register_writer
            from {where['format']} import Plain{n}
            from arti.types import Type
            from arti.storage.local import LocalFilePartition
            from arti.views.python import PythonBuiltin
            @register_reader
            def read_{u}(type_: Type, format: Plain{n}, storage_partitions: Sequence[LocalFilePartition], view: PythonBuiltin) -> Any:
                return ast.literal_eval(open(storage_partitions[0].path).read())
            @register_writer
            def write_{u}(data: Any, type_: Type, format: Plain{n}, storage_partition: LocalFilePartition, view: PythonBuiltin) -> None:
                os.makedirs(os.path.dirname(storage_partition.path), exist_ok=True)
                with open(storage_partition.path, "w") as f:
                    f.write(repr(data))
        """
    else:
        files[where["storage"]] = f"""
            import os
            from arti import Fingerprint, InputFingerprints, Storage, StoragePartition
            SHELVES = {{}}
            class Shelf{n}Partition(StoragePartition):
                slot: str
                def compute_content_fingerprint(self):
                    return Fingerprint.from_string(SHELVES[self.slot])
            class Shelf{n}(Storage[Shelf{n}Partition]):
                slot: str = "{{graph_name}}/{{names}}/{{partition_key_spec}}/{{input_fingerprint}}"
                def discover_partitions(self, input_fingerprints=InputFingerprints()):
                    got = []
                    for fp in input_fingerprints.values() or [None]:
                        p = self.generate_partition(input_fingerprint=fp) if fp is not None else self.generate_partition()
                        if p.slot in SHELVES:
                            got.append(p.snapshot())
                    return tuple(got)
        """
        files[where["io"]] = f"""
            import json
            from collections.abc import Sequence
            from typing import Any
            from arti.io import register_reader, register_writer
            from arti.formats.json import JSON
            from arti.types import Type
            from {where['storage']} import SHELVES, Shelf{n}Partition
            from arti.views.python import PythonBuiltin
            @register_reader
            def read_{u}(type_: Type, format: JSON, storage_partitions: Sequence[Shelf{n}Partition], view: PythonBuiltin) -> Any:
                return json.loads(SHELVES[storage_partitions[0].slot])
            @register_writer
            def write_{u}(data: Any, type_: Type, format: JSON, storage_partition: Shelf{n}Partition, view: PythonBuiltin) -> None:
                SHELVES[storage_partition.slot] = json.dumps(data)
        """
    return {"n": n, "kind": kind, "where": where, "files": {m: textwrap.dedent(s) for m, s in files.items()}, "inits": rng.random() < 0.4}


def install(rng, root, plugins):
    """Write the plug-ins below one or several directories; return those."""
    dirs = [root / f"site{i}" for i in range(rng.choice([1, 1, 2]))]
    for p in plugins:
        d = rng.choice(dirs)
        # (a regular package hides the parts that a package of that name has elsewhere)
        inits = p["inits"] and not (len(plugins) > 1 and any(".vendor." in m for m in p["files"]))
        for module, source in p["files"].items():
            path = d.joinpath(*module.split(".")).with_suffix(".py")
            path.parent.mkdir(parents=True, exist_ok=True)
            path.write_text(source)
            if inits:  # regular packages below the library's own ones
                up = path.parent
                while len(up.relative_to(d).parts) > 2:
                    (up / "__init__.py").touch()
                    up = up.parent
    for d in dirs:
        d.mkdir(exist_ok=True)
    return [str(d) for d in dirs]


def job_plugin(p):
    """Use a plug-in without ever importing the modules that provide its views, readers and writers."""
    from typing import Annotated

    from arti import Artifact, Graph, producer
    from arti import types as T
    from arti.formats.json import JSON
    from arti.storage.local import LocalFile

    n, where = p["n"], p["where"]
    lib = importlib.import_module(where["lib"])
    Thing = getattr(lib, f"Thing{n}")
    if p["kind"] == "view":
        ns = {"Annotated": Annotated, "Thing": Thing, "Int64": T.Int64}
        exec("def bump(x: Annotated[Thing, Int64()]) -> Annotated[Thing, Int64()]:\n    return Thing(x.v + 1)\n", ns)  # noqa: S102
        step = producer()(ns["bump"])
        fmt, store, outstore, value, want, hint = JSON(), LocalFile(path=f"raw/p{n}.json"), LocalFile.rooted_at("out"), Thing(4), Thing(5), Thing
    else:
        def step(x: int) -> int:
            return x + 1

        step = producer()(step)
        value, want, hint = 4, 5, int
        if p["kind"] == "format":
            fmt = getattr(importlib.import_module(where["format"]), f"Plain{n}")()
            store, outstore = LocalFile(path=f"raw/p{n}{{extension}}"), LocalFile.rooted_at("out")
        else:
            fmt = JSON()
            cls = getattr(importlib.import_module(where["storage"]), f"Shelf{n}")
            store, outstore = cls(), cls()
    with Graph(name=f"plug{n}") as g:
        g.artifacts.raw = Artifact(type=T.Int64(), format=fmt, storage=store)
        g.artifacts.out = step(x=g.artifacts.raw).out(Artifact(type=T.Int64(), format=fmt, storage=outstore))
    g.write(value, artifact=g.artifacts.raw)
    got = g.build().read(g.artifacts.out, annotation=hint)
    assert got == want, (got, want)
    return repr(got)


# ------------------------------------------------------------------ the fork
def forked(work, scratch, spec):
    """Run `work(spec)` in a fork, in a directory of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(60)
            os.close(r)
            os.chdir(scratch)
            try:
                out = ("ok", work(spec))
            except BaseException as e:  # noqa: BLE001
                out = ("error", f"{type(e).__name__}: {e}", traceback.format_exc()[-2500:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        raise Violation(f"a process ended with status {status}: {spec}")
    return pickle.loads(data)


def child(spec):
    sys.path[:0] = spec["dirs_front"]
    sys.path += spec["dirs_back"]
    importlib.invalidate_caches()
    rng = random.Random(spec["seed"])
    out = {"first": None, "before": {}}
    results = {}
    for kind, what in spec["events"]:
        if kind == "import":
            importlib.import_module(what)
        elif kind == "job":
            out["before"][what] = sorted(m for m in sys.modules if m.startswith(("arti.io.", "arti.views.")))
            results[what] = JOBS[what]()
        else:
            out["before"][f"plugin {what}"] = sorted(m for m in sys.modules if m.startswith(("arti.io.", "arti.views.")))
            results[f"plugin {what}"] = job_plugin(next(p for p in spec["plugins"] if p["n"] == what))
    del rng
    out["results"] = results
    return out


REFERENCE: dict = {}


def setup(ctx):
    REFERENCE.clear()
    scratch = ctx.tmpdir()
    got = forked(child, scratch, {"dirs_front": [], "dirs_back": [], "seed": 0, "plugins": [], "events": [("import", m) for m in MODULES] + [("job", j) for j in JOBS]})
    if got[0] == "ok":
        REFERENCE.update(got[1]["results"])
    else:
        REFERENCE["error"] = got[1:]


def case(ctx, rng):
    ctx.check("error" not in REFERENCE, "importing every module, then using them", error=REFERENCE.get("error"))
    scratch = ctx.tmpdir()
    plugins = [plugin(rng, i) for i in range(rng.choice([0, 0, 1, 1, 2]))]
    dirs = install(rng, scratch, plugins) if plugins else []
    front = [d for d in dirs if rng.random() < 0.5]
    mods = rng.sample(MODULES, rng.choice([0, 1, 1, 2, 5, 10, len(MODULES)]))
    jobs = rng.sample(list(JOBS), rng.choice([1, 2, 3, len(JOBS)]))
    events = [("import", m) for m in mods] + [("job", j) for j in jobs] + [("plugin", p["n"]) for p in plugins]
    if rng.random() < 0.3:
        events += [("import", m) for p in plugins for m in rng.sample(list(p["files"]), 1)]
    rng.shuffle(events)
    first = events[0] if events else None
    spec = {"dirs_front": front, "dirs_back": [d for d in dirs if d not in front], "seed": rng.getrandbits(32), "plugins": plugins, "events": events}
    (work := scratch / "work").mkdir()
    got = forked(child, work, spec)
    what = {"order": events, "plugins": [(p["kind"], p["where"]) for p in plugins]}
    ctx.check(got[0] == "ok", "the library did not work in this order of imports", error=got[1:], **what)
    res = got[1]
    for name, value in res["results"].items():
        if name.startswith("plugin"):
            ctx.n["plugins_used"] += 1
            kind = plugins[int(name.split()[1])]["kind"]
            ctx.n[f"plugin_{kind}"] += 1
            cold = not res["before"][name]
            ctx.n["plugins_cold"] += cold
            ctx.seen(("plugin", kind, cold, len(dirs), bool(front), plugins[int(name.split()[1])]["where"]["io"].count("."), plugins[int(name.split()[1])]["inits"], len(plugins)))
        else:
            ctx.eq(repr(value), repr(REFERENCE[name]), f"{name} after these imports", **what)
            ctx.n["jobs_compared"] += 1
            ctx.n["jobs_cold"] += not res["before"][name]
            ctx.seen((name, tuple(m for k, m in events[: events.index(("job", name))])[:2], not res["before"][name]))
    ctx.n["first_import"] += first is not None and first[0] == "import"
    ctx.n["imports"] += len(mods)
    if len(ctx.samples) < 3:
        ctx.samples.append({"case": ctx.case_id, "first": first, "imports": len(mods), "jobs": jobs, "plugins": [p["kind"] for p in plugins]})
    ctx.rmdir(scratch)
