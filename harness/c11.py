"""C11: random graph-definition programs against a model of names, locations and openness."""
import copy
import tempfile
import threading

import arti
from arti import Artifact, Graph
from arti import types as T
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.graphs import ArtifactBox
from arti.internal.mappings import frozendict
from arti.storage.google.cloud.storage import GCSFile
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile

from c07 import produced_by
from core import Violation

PROP = "C11"
CASES = {"quick": 15000, "thorough": 120000}
SECONDS = {"quick": 100, "thorough": 1200}

PART = T.Collection(element=T.Struct(fields={"k": T.Int64(), "d": T.Date(), "v": T.Int64()}), partition_by=("k", "d"))
SPEC = "k_value={k.value}/d_Y={d.Y}/d_m={d.m:02}/d_d={d.d:02}"
PLAIN = T.List(element=T.Int64())

# Location templates: a list of segments; a segment that is exactly one unused placeholder disappears.
SEGMENTS = [
    ["{graph_name}", "{path_tags}", "{names}", "{partition_key_spec}", "{input_fingerprint}", "{name}{extension}"],
    ["{names}", "{path_tags}", "{partition_key_spec}", "{graph_name}", "{input_fingerprint}"],
    ["{graph_name}-{name}", "{names}", "{input_fingerprint}", "{path_tags}", "f{extension}"],
    ["{path_tags}", "v1", "{input_fingerprint}", "{graph_name}", "{names}{extension}"],
    ["{input_fingerprint}", "{graph_name}", "{graph_name}", "{names}", "{name}"],
]


class Spec:
    """One artifact of the program: how to make it and where it must end up."""

    def __init__(self, rng, i, root):
        self.type = rng.choice([PART, PLAIN])
        self.fmt = rng.choice([JSON, Pickle])
        self.kind = rng.choice(["literal", "local", "local", "default local", "gcs", "default gcs"])
        self.produced = rng.random() < 0.4
        self.i = i
        self.prefix, self.segments = "", None
        if self.kind == "literal":
            self.segments = SEGMENTS[0]
            self.storage = StringLiteral()
            self.fmt = JSON
        elif self.kind == "default local":
            self.storage = LocalFile()
            self.segments = SEGMENTS[0]
            self.prefix = tempfile.gettempdir() + "/"
        elif self.kind == "default gcs":
            self.storage = GCSFile(bucket="bkt")
            self.segments = [*SEGMENTS[0][:-1], "{name}.{extension}"]
        else:
            self.segments = [*rng.choice(SEGMENTS), f"n{i}"] if rng.random() < 0.5 else [f"n{i}", *rng.choice(SEGMENTS)]
            self.prefix = f"{root}/" if self.kind == "local" else ""
            path = self.prefix + "/".join(self.segments)
            self.storage = LocalFile(path=path) if self.kind == "local" else GCSFile(bucket="{graph_name}" if rng.random() < 0.2 else "bkt", path=path)
        self.bucket = getattr(self.storage, "bucket", None)
        if self.produced:
            self.art = produced_by("Collection" if self.type is PART else "List", self.type, self.fmt(), self.storage)
        else:
            self.art = Artifact(type=self.type, format=self.fmt(), storage=self.storage)

    def where(self, graph_name, tags, names):
        values = {
            "{graph_name}": graph_name,
            "{path_tags}": "/".join(f"{k}={v}" for k, v in tags.items()),
            "{names}": "/".join(names),
            "{name}": names[-1],
            "{partition_key_spec}": SPEC if self.type is PART else "",
            "{input_fingerprint}": "{input_fingerprint}" if self.produced else "",
            "{extension}": {JSON: ".json", Pickle: ".pickle"}[self.fmt],
        }
        segs = [s for s in self.segments if values.get(s) != ""]
        out = "/".join(segs)
        for k, v in values.items():
            if k not in ("{partition_key_spec}", "{input_fingerprint}"):
                out = out.replace(k, v)
        return self.prefix + out.replace("{partition_key_spec}", values["{partition_key_spec}"])


def location(art):
    s = art.storage
    return ("literal", s.id) if isinstance(s, StringLiteral) else ("local", s.path) if isinstance(s, LocalFile) else ("gcs", s.bucket, s.path)


def state(spec):
    a = spec.art
    return (repr(a), a.fingerprint, location(a), hash(a), repr(a.producer_output))


NAME_PARTS = ["a", "b", "c", "ab", "x1", "name", "é", "a-b", "with space", "data", "fingerprint", "copy", "0", "00", "None", " "]
IDENT = ["a", "b", "c", "ab", "x1", "name", "data"]


class Box:
    """Model of the names: dotted leaf name -> Spec."""

    def __init__(self):
        self.leaves: dict = {}

    def free(self, name):
        parts = name.split(".")
        if any(".".join(parts[:j]) in self.leaves for j in range(1, len(parts) + 1)):
            return False
        return not any(n.startswith(name + ".") for n in self.leaves)


def assign(rng, g, name, value):
    """Through item access on the root, attribute access, or a nested box."""
    parts = name.split(".")
    how = rng.choice(["item", "attr", "mixed", "mapping"])
    if how == "item":
        g.artifacts[name] = value
    elif how == "attr":
        box = g.artifacts
        for p in parts[:-1]:
            box = getattr(box, p)
        setattr(box, parts[-1], value)
    elif how == "mixed":
        box = g.artifacts
        for p in parts[:-1]:
            box = box[p]
        box[parts[-1]] = value
    else:
        wrap = dict if isinstance(value, dict) else rng.choice([dict, frozendict, standalone, standalone])
        for p in reversed(parts[1:]):
            value = wrap({p: value})
        before = copy.copy(value) if isinstance(value, dict) else None
        g.artifacts[parts[0]] = value
        if before is not None and before != value:
            raise Violation("assigning a mapping modified it")
        if isinstance(value, ArtifactBox):  # the passed box is independent of the graph
            leaves = dict(g.artifacts.walk())
            value["later"] = Artifact(type=PLAIN, format=JSON(), storage=StringLiteral(value="[]"))
            if dict(g.artifacts.walk()) != leaves:
                raise Violation("changing a box after it was assigned to a graph changed the graph")


def standalone(arg):
    """A box of its own, filled away from the graph being defined."""
    out = []

    def fill():
        try:
            out.append(ArtifactBox(arg))
        except BaseException as e:
            out.append(e)

    t = threading.Thread(target=fill)
    t.start()
    t.join()
    if isinstance(out[0], BaseException):
        raise out[0]
    return out[0]


def check_graph(ctx, g, box, tags, tracked):
    leaves = dict(g.artifacts.walk())
    ctx.check(set(leaves) == set(box.leaves), "the graph has other artifacts than were assigned", got=sorted(leaves), want=sorted(box.leaves))
    seen = {}
    for name, spec in box.leaves.items():
        art = leaves[name]
        names = tuple(name.split("."))
        want = spec.where(g.name, tags, names)
        loc = location(art)
        ctx.check(loc[-1] == want, f"location of {name!r} ({spec.kind})", got=loc[-1], want=want)
        if spec.bucket is not None:
            ctx.check(loc[1] == spec.bucket.replace("{graph_name}", g.name), "bucket", got=loc)
        ctx.check("{input_fingerprint}" in loc[-1] if spec.produced else "{input_fingerprint}" not in loc[-1], "input-fingerprint part", loc=loc)
        ctx.check(loc not in seen, f"{name!r} and {seen.get(loc)!r} share a location", loc=loc)
        seen[loc] = name
        ctx.check(g.artifacts[name] == art and name in g.artifacts, "item access disagrees")
        ctx.check(art.type == spec.type and type(art.format) is spec.fmt and art.producer_output == spec.art.producer_output, f"{name!r} is not the assigned artifact")
        ctx.n["locations"] += 1
    for spec, before in tracked:
        ctx.check(state(spec) == before, "assigning an artifact modified the assigned object", before=before, after=state(spec))
    return seen


def refuse_while_closed(ctx, rng, g, box, held, spec):
    """No way to add to a closed graph."""
    before = (dict(g.artifacts.walk()), g.fingerprint)
    fresh = "zz" if rng.random() < 0.5 else "zz.y"
    tries = [
        lambda: g.artifacts.__setitem__(fresh, spec.art),
        lambda: setattr(g.artifacts, "zz", spec.art),
        lambda: g.artifacts.__setitem__("zz", {"q": spec.art}),
        lambda: setattr(g, "artifacts", {}),
        lambda: setattr(g, "name", "other"),
        lambda: setattr(g, "path_tags", {"q": "1"}),
        lambda: g.artifacts.__delitem__(next(iter(box.leaves), "x")),
        lambda: delattr(g, "name"),
        lambda: g.artifacts["new"],
        lambda: g.artifacts.new,
        lambda: g.path_tags.__setitem__("q", "1"),
        *[lambda b=b: b.__setitem__("late", spec.art) for b in held],
        *[lambda b=b: setattr(b, "late", spec.art) for b in held],
    ]
    for name in list(box.leaves)[:2]:
        tries += [lambda name=name: g.artifacts.__setitem__(name, spec.art), lambda name=name: setattr(g.artifacts[name], "type", PLAIN), lambda name=name: setattr(g.artifacts[name].storage, "path", "x")]
    for i, fn in enumerate(rng.sample(tries, min(6, len(tries)))):
        ctx.raises((ValueError, TypeError, AttributeError, KeyError), fn, "changing a closed graph")
        ctx.n["refused_changes"] += 1
    ctx.check((dict(g.artifacts.walk()), g.fingerprint) == before, "a refused change had an effect")


def case(ctx, rng):
    root = ctx.tmpdir()
    tags = rng.choice([{}, {}, {"env": "t"}, {"b": "2", "a": "1"}, {"0": "0"}, {"n": ""}, {"": "0"}])
    gname = rng.choice(["g", "G-1", "my graph", "é", "0", "00", "False", " "])
    g = Graph(name=gname, path_tags=tags, backend=MemoryBackend())
    tags = dict(g.path_tags)
    box, tracked, held, log = Box(), [], [], []
    pool = [Spec(rng, i, root) for i in range(rng.choice([2, 5, 8]))]
    ctx.check(arti.context.graph is None, "a graph is being defined before any was opened")
    refuse_while_closed(ctx, rng, g, box, held, pool[0])
    for block in range(rng.choice([1, 1, 2, 3])):
        fails = rng.random() < 0.25

        class Boom(Exception):
            pass

        try:
            with g as opened:
                ctx.check(opened is g and arti.context.graph is g, "the opened graph is not the one being defined")
                for _ in range(rng.choice([0, 2, 4])):
                    op = rng.choice(["add", "add", "add", "add", "dup", "under", "bad", "nested", "sealed", "thread", "notemplate", "peek"])
                    log.append(op)
                    if op == "add":
                        name = ".".join(rng.choice(NAME_PARTS) for _ in range(rng.choice([1, 1, 2, 3, 4, 5])))
                        if box.leaves and rng.random() < 0.3:  # a name that differs from another in one part only
                            parts = rng.choice(list(box.leaves)).split(".")
                            parts[rng.randrange(len(parts))] = rng.choice(NAME_PARTS)
                            name = ".".join(parts)
                        spec = rng.choice(pool)
                        if spec.kind in ("local", "gcs") and any(s.i == spec.i for s in box.leaves.values()) and "{names}" not in "/".join(spec.segments):
                            continue
                        tracked.append((spec, state(spec)))
                        if box.free(name):
                            assign(rng, g, name, spec.art)
                            box.leaves[name] = spec
                            if "." in name:
                                held.append(g.artifacts[name.rsplit(".", 1)[0]])
                            ctx.seen((spec.kind, spec.produced, spec.type is PART, tuple(spec.segments), len(name.split(".")), bool(tags), gname, block), {"name": name, "location": location(g.artifacts[name])} if len(ctx.samples) < 4 else None)
                        else:
                            before = dict(g.artifacts.walk())
                            ctx.raises((ValueError, TypeError, AttributeError, KeyError), lambda: g.artifacts.__setitem__(name, spec.art), f"{name!r} cannot be added next to {sorted(box.leaves)}")
                            ctx.check(dict(g.artifacts.walk()) == before, "a refused addition had an effect")
                    elif op == "dup" and box.leaves:
                        name = rng.choice(list(box.leaves))
                        before = dict(g.artifacts.walk())
                        value = rng.choice([pool[0].art, {"sub": pool[0].art}, box.leaves[name].art])
                        ctx.raises(ValueError, lambda: assign(rng, g, name, value), f"{name!r} was already assigned")
                        ctx.check(dict(g.artifacts.walk()) == before, "a refused addition had an effect")
                        ctx.n["duplicates"] += 1
                    elif op == "under" and box.leaves:
                        name = rng.choice(list(box.leaves))
                        before = dict(g.artifacts.walk())
                        ctx.raises((ValueError, TypeError, AttributeError, KeyError), lambda: g.artifacts.__setitem__(name + ".sub", pool[0].art), "adding below an artifact")
                        ctx.check(dict(g.artifacts.walk()) == before, "a refused addition had an effect")
                    elif op == "bad":
                        bad = rng.choice([({1, 2}, "a set"), (object(), "an object"), (int, "a type")])
                        before = dict(g.artifacts.walk())
                        ctx.raises((ValueError, TypeError, NotImplementedError), lambda: g.artifacts.__setitem__("bad", bad[0]), f"{bad[1]} is not an artifact")
                        ctx.raises((AttributeError, ValueError), lambda: g.artifacts.__setitem__("_hidden", pool[0].art), "a private name")
                        ctx.check(dict(g.artifacts.walk()) == before, "a refused addition had an effect")
                    elif op == "nested":
                        other = rng.choice([g, Graph(name="inner")])
                        ctx.raises(ValueError, other.__enter__, "defining a graph while another is being defined")
                        ctx.check(arti.context.graph is g, "a refused graph replaced the one being defined")
                        if other is not g:
                            ctx.raises(ValueError, lambda: other.artifacts.__setitem__("x", pool[0].art), "adding to a graph that was never opened")
                        ctx.n["nested"] += 1
                    elif op == "sealed":
                        use = rng.choice([g.snapshot, g.build, lambda: g.dependencies, lambda: g.producers, lambda: g.producer_outputs, lambda: g.read(pool[0].art, annotation=list), lambda: g.write([1], artifact=pool[0].art)])
                        ctx.raises(ValueError, use, "using a graph while it is being defined")
                        ctx.n["sealed"] += 1
                    elif op == "thread":
                        res = []

                        def other_thread():
                            try:
                                res.append(arti.context.graph)
                                with Graph(name="threaded") as tg:
                                    tg.artifacts.t = Artifact(type=PLAIN, format=JSON(), storage=StringLiteral(value="[]"))
                                res.append((tg.artifacts.t.storage.id, sorted(k for k, _ in tg.artifacts.walk())))
                            except BaseException as e:
                                res.append(e)

                        t = threading.Thread(target=other_thread)
                        t.start()
                        t.join()
                        ctx.eq(res, [None, ("threaded/t/t.json", ["t"])], "defining a graph in another thread meanwhile")
                        ctx.check(arti.context.graph is g, "another thread replaced the graph being defined")
                        ctx.n["threads"] += 1
                    elif op == "notemplate":
                        st = rng.choice([LocalFile(path=f"{root}/{{name}}"), GCSFile(bucket="bkt", path="{names}/x"), StringLiteral(id="{graph_name}/{names}")])
                        bad_art = produced_by("List", PLAIN, JSON(), st)
                        before = dict(g.artifacts.walk())
                        ctx.raises(ValueError, lambda: g.artifacts.__setitem__("nt", bad_art), "a produced artifact without an input-fingerprint part")
                        ctx.check(dict(g.artifacts.walk()) == before, "a refused addition had an effect")
                        ctx.n["notemplate"] += 1
                    elif op == "peek":
                        ctx.check("nothing.here" not in g.artifacts and "nothing" not in g.artifacts, "membership")
                        len(g.artifacts), list(g.artifacts.walk())
                if fails:
                    raise Boom
        except Boom:
            ctx.check(fails, "unexpected")
            ctx.n["failed_blocks"] += 1
        ctx.check(arti.context.graph is None, "leaving the definition left it open")
        check_graph(ctx, g, box, tags, tracked)
        refuse_while_closed(ctx, rng, g, box, held, pool[0])
        if rng.random() < 0.5:
            g.dependencies, g.producers, g.producer_outputs, g.artifact_to_key  # noqa: B018
        # the same graph defined in one go
        with Graph(name=gname, path_tags=tags, backend=MemoryBackend()) as once:
            items = list(box.leaves.items())
            rng.shuffle(items)
            for name, spec in items:
                once.artifacts[name] = spec.art
        ctx.eq(g.fingerprint, once.fingerprint, "fingerprint of a re-opened graph and of one defined in one go")
        ctx.eq(dict(g.artifacts.walk()), dict(once.artifacts.walk()), "artifacts of a re-opened graph")
        ctx.check(g.producers == once.producers and g.dependencies == once.dependencies and g.artifact_to_key == once.artifact_to_key, "derived structure of a re-opened graph")
        ctx.check({p: frozenset(o) for p, o in g.producer_outputs.items()} == {p: frozenset(o) for p, o in once.producer_outputs.items()}, "outputs of a re-opened graph")
        ctx.n["reopened" if block else "closed"] += 1
    # a differently named or tagged graph uses other locations
    with Graph(name=gname + "2", path_tags=tags) as g2:
        for name, spec in box.leaves.items():
            g2.artifacts[name] = spec.art
    for name, spec in box.leaves.items():
        if "{graph_name}" in "/".join(spec.segments):
            ctx.check(location(g2.artifacts[name]) != location(g.artifacts[name]), "two graphs share a location", loc=location(g.artifacts[name]))
    ctx.rmdir(root)
