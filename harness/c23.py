"""C23: plain values assigned in a graph become artifacts that read back as that value.

Random plain values are assigned through every route (item, attribute, dotted, nested, re-opened graph), read
back through graphs and snapshots, fed to producers, and compared type-exactly; refused values must leave the
graph as it was. Producer instances are assigned next to their explicitly unpacked outputs.
"""
import datetime
import decimal
import json
import math
import pathlib
import re
from typing import Annotated

from arti import Artifact, Graph, Producer, View, io, producer
from arti import types as T
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.views import python as V

from core import Violation

PROP = "C23"
CASES = {"quick": 8500, "thorough": 60000}
SECONDS = {"quick": 100, "thorough": 1200}

WORDS = ["", "a", "é✓", "{x}", "{graph_name}/{name}", "{", "}", "{{}}", "{input_fingerprint}", "\u0000", '"q"\\', "null", "1", "true", "\n\r\t", "\U0001f600", "%s", "~/x", "/", " ", "a" * 3000, "[1]", "\ud800", "\u2028"]


def scalar(rng, k):
    if k == "int":
        return rng.choice([0, -1, 1, 5, 2**53 + 1, 2**63 - 1, -(2**63), rng.getrandbits(62), -rng.getrandbits(40)])
    if k == "float":
        return rng.choice([0.0, -0.0, 1.0, 0.1, -2.5, 1e300, 5e-324, math.inf, -math.inf, rng.random(), float(rng.getrandbits(70))])
    if k == "str":
        return rng.choice(WORDS) if rng.random() < 0.7 else f"s{rng.getrandbits(50):x}"
    if k == "bool":
        return rng.random() < 0.5
    return None


SCALARS = ["int", "float", "str", "bool", "none"]
TYPES = {"int": T.Int64, "float": T.Float64, "str": T.String, "bool": T.Boolean, "none": T.Null}
HINTS = {"int": int, "float": float, "str": str}
VIEWS = {"int": V.Int, "float": V.Float, "str": V.Str, "list": V.List, "none": V.Null, "bool": V.Int}


def good(rng):
    k = rng.choice([*SCALARS, "list", "list", "list"])
    if k != "list":
        return k, None, scalar(rng, k)
    e = rng.choice(SCALARS)
    return "list", e, [scalar(rng, e) for _ in range(rng.choice([1, 2, 3, 20]) if rng.random() < 0.97 else rng.randrange(100, 2500))]


def expected_type(k, e):
    return T.List(element=TYPES[e]()) if k == "list" else TYPES[k]()


class Custom:
    pass


def mixed(rng):
    """A homogeneous list with a single odd element somewhere."""
    e, odd = rng.sample(SCALARS, 2)
    n = rng.choice([3, 5, 12, 40]) if rng.random() < 0.8 else rng.randrange(100, 2500)
    xs = [scalar(rng, e) for _ in range(n)]
    xs[rng.choice([0, -1, n // 2, rng.randrange(n)])] = rng.choice([scalar(rng, odd), [scalar(rng, e)]])
    return xs if not all(isinstance(x, type(xs[0])) for x in xs) else ["a", *xs]  # (each bool is an int)


def bad(rng):
    s = scalar(rng, "str")
    return rng.choice([
        ("an empty list", []),
        ("an empty tuple", ()),
        ("a mixed list", rng.choice([[1, "a"], ["a", 1], [1.5, "x"], [1, None], ["a", None], [None, 1], [s, 2], [1.5, 1], [True, 2], [1, [1]]])),
        ("a list with an odd element", mixed(rng)),
        ("a nested list", rng.choice([[[1]], [[]], [["a"], ["b"]]])),
        ("a list of mappings", [{"a": 1}]),
        ("bytes", rng.choice([b"", b"abc", bytearray(b"x")])),
        ("a set", rng.choice([{1, 2}, frozenset({"a"}), set()])),
        ("a complex number", 1 + 2j),
        ("a decimal", decimal.Decimal("1.5")),
        ("a date", datetime.date(2020, 1, 1)),
        ("a time", rng.choice([datetime.datetime(2020, 1, 1), datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc), datetime.timedelta(1), datetime.time(1)])),
        ("a list of dates", [datetime.date(2020, 1, 1)]),
        ("a list of bytes", [b"a"]),
        ("a path", pathlib.Path("x")),
        ("a function", lambda: 0),
        ("an object", rng.choice([object(), Custom(), [Custom()], Custom])),
        ("a range", range(3)),
        ("a generator", (x for x in (1, 2))),
        ("an iterator", iter([1])),
        ("a regex", re.compile("x")),
        ("an Artifact class", Artifact),
        ("a type", T.Int64()),
        ("a view", V.Int(mode="READ", type=T.Int64())),
        ("a graph", Graph(name="inner")),
    ])


def exact(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(exact, a, b))
    return repr(a) == repr(b)


def canon(v):
    return f"{type(v).__name__}:{[canon(x) for x in v] if isinstance(v, list) else repr(v)}"


def assign(rng, g, name, value):
    *head, leaf = name.split(".")
    how = rng.choice(["item", "attr", "mixed", "chained"])
    if how == "item":
        g.artifacts[name] = value
        return
    box = g.artifacts
    for h in head:
        box = getattr(box, h) if how != "chained" else box[h]
    if how == "attr" or how == "chained":
        setattr(box, leaf, value)
    else:
        box[leaf] = value


def fetch(rng, g, name):
    if rng.random() < 0.5:
        return g.artifacts[name]
    box = g.artifacts
    for h in name.split("."):
        box = getattr(box, h) if rng.random() < 0.5 else box[h]
    return box


def case(ctx, rng):
    root = ctx.tmpdir()
    n = rng.choice([1, 2, 3, 5])
    names = [rng.choice(["", "ns.", "a.b."]) + f"val{i}" for i in range(n)]
    specs = {name: good(rng) for name in names}
    gname = rng.choice(["g", "é x", "a.b"])
    order = list(names)

    def define(specs, *, noise=False, backend=None):
        g = Graph(name=gname, backend=backend or MemoryBackend())
        todo = list(order)
        rng.shuffle(todo)
        cut = rng.randrange(len(todo) + 1) if rng.random() < 0.3 else len(todo)
        for part in (todo[:cut], todo[cut:]):
            if not part:
                continue
            with g:
                for name in part:
                    if noise:
                        what, v = bad(rng)
                        before = repr(sorted(g.artifacts.walk(), key=lambda kv: kv[0]))
                        where = rng.choice([name, "fresh", "deep.er"])
                        ctx.raises(Exception, lambda: assign(rng, g, where, v), f"assigning {what}")
                        ctx.eq(repr(sorted(g.artifacts.walk(), key=lambda kv: kv[0])), before, f"artifacts after {what} was refused")
                        ctx.n["refused_values"] += 1
                        ctx.seen(("refused", what))
                    k, e, v = specs[name]
                    given = list(v) if k == "list" else v
                    assign(rng, g, name, given)
                    if k == "list":  # what was assigned is a value: later changes of the list do not matter
                        given.append(given[0])
                        given[0] = "changed"
                    if rng.random() < 0.2:
                        ctx.raises(ValueError, lambda: assign(rng, g, name, 5), "overwriting an artifact")
        return g

    g = define(specs, noise=rng.random() < 0.5)
    snap = g.snapshot()
    for name in names:
        k, e, v = specs[name]
        art = fetch(rng, g, name)
        ctx.check(isinstance(art, Artifact) and art.producer_output is None, "a plain value is not a raw artifact", got=art)
        ctx.eq(art.type, expected_type(k, e), f"inferred type of {v!r}"[:300])
        view = VIEWS[k](mode=rng.choice(["READ", "READWRITE"]), type=art.type)
        reads = [("graph+view", lambda: g.read(art, view=view)), ("snapshot+view", lambda: snap.read(art, view=view))]
        if k in HINTS:
            hint = rng.choice([HINTS[k], Annotated[HINTS[k], "note"], Annotated[HINTS[k], expected_type(k, e)]])
            reads += [("graph", lambda: g.read(art, annotation=hint)), ("snapshot", lambda: snap.read(art, annotation=hint))]
        if k == "list":
            hints = [list] + ([list[HINTS[e]]] if e in HINTS else [])
            hint = rng.choice(hints)
            reads += [("graph", lambda: g.read(art, annotation=hint)), ("snapshot", lambda: snap.read(art, annotation=hint))]
        for how, fn in reads:
            got = fn()
            ctx.check(exact(got, v), f"{how}: a plain value reads back differently", got=str(got)[:200], want=str(v)[:200])
            if k == "list":  # what was read belongs to the reader: changing it is invisible to the next one
                got.append("changed")
                got[0] = "changed"
            ctx.n["reads"] += 1
        if rng.random() < 0.2:
            ctx.raises(ValueError, lambda: g.write(v, artifact=art, view=VIEWS[k](mode="WRITE", type=art.type)) if k != "bool" else g.write(1, artifact=art), "writing to a plain value")
            ctx.check(exact(g.read(art, view=view), v), "a refused write changed a plain value")
        ctx.seen(("value", k, e, canon(v)[:60]), {"value": str(v)[:100], "type": repr(art.type)[:100]} if len(ctx.samples) < 3 else None)

    # identity: equal values give the same snapshot, any changed value another
    again = define(specs)
    ctx.eq(again.snapshot().id, snap.id, "identity of a graph with the same values")
    target = rng.choice(names)
    k, e, v = specs[target]
    if rng.random() < 0.5:
        near = {"int": lambda: rng.choice([v + 1, -v - 1, float(v), str(v), [v]]), "float": lambda: rng.choice([v / 2 + 1, repr(v), [v], int(v) if math.isfinite(v) and abs(v) < 2**53 else 0]), "str": lambda: rng.choice([v + " ", v + "x", [v], "x" + v]), "bool": lambda: rng.choice([not v, int(v), str(v), [v]]), "none": lambda: rng.choice(["null", "None", 0, False, [None]]), "list": lambda: rng.choice([v + v, json.dumps(v), v[0], [*v, v[0]]])}[k]()
        other = (kind(near), kind(near[0]) if isinstance(near, list) else None, near)
    else:
        other = good(rng)
    changed = define({**specs, target: other})
    same = canon(other[2]) == canon(v)
    ctx.check((changed.snapshot().id == snap.id) == same, "snapshot identity and plain values", before=str(v)[:100], after=str(other[2])[:100])
    ctx.n["identities_same" if same else "identities_changed"] += 1

    producers(ctx, rng, root, specs, gname)
    nested(ctx, rng)
    casted(ctx, rng)
    ctx.rmdir(root)


def kind(v):
    return {int: "int", float: "float", str: "str", bool: "bool", type(None): "none", list: "list"}[type(v)]


def producers(ctx, rng, root, specs, gname):
    """Plain values feed producers; a single-output producer stands for its output."""
    feed = {n: s for n, s in specs.items() if s[0] in HINTS or (s[0] == "list" and s[1] in HINTS)}
    if not feed:
        return
    params = {f"p{i}": n for i, n in enumerate(feed)}
    log = []

    def src(s):
        return s[0] if s[0] != "list" else f"list[{s[1]}]"

    n_out = rng.choice([1, 1, 2])
    ret = "int" if n_out == 1 else "tuple[int, str]"
    ns = {"log": log, "RESULT": (7 if n_out == 1 else (7, "seven"))}
    exec(f"def Feed({', '.join(f'{p}: {src(feed[n])}' for p, n in params.items())}) -> {ret}:\n    log.append(dict({', '.join(f'{p}={p}' for p in params)}))\n    return RESULT\n", ns)  # noqa: S102
    cls = producer()(ns["Feed"]) if rng.random() < 0.5 else type("Feed", (Producer,), {"__module__": __name__, "__annotations__": {p: Artifact for p in params}, "build": staticmethod(ns["Feed"])})
    graphs = []
    for explicit in (False, True):
        with Graph(name=gname, backend=MemoryBackend()) as g:
            for n, (_, _, v) in feed.items():
                g.artifacts[n] = v
            p = cls(**{q: g.artifacts[n] for q, n in params.items()})
            if n_out == 1:
                assign(rng, g, "res", p.out() if explicit else p)
            else:
                before = list(g.artifacts.walk())
                ctx.raises(ValueError, lambda: assign(rng, g, "res", p), "assigning a multi-output producer")
                ctx.raises(Exception, lambda: assign(rng, g, "res", p.out()), "assigning several outputs to one name")
                ctx.check([k for k, _ in g.artifacts.walk()] == [k for k, _ in before], "a refused producer changed the graph")
                a, b = p.out()
                assign(rng, g, "res", a)
                assign(rng, g, "o.other", b)
                ctx.n["multi_refused"] += 1
        graphs.append(g)
    a, b = graphs
    ctx.check(a.artifacts["res"] == b.artifacts["res"] and a.fingerprint == b.fingerprint and a.dependencies == b.dependencies and a.producers == b.producers, "assigning a producer differs from assigning its output")
    ctx.eq(a.snapshot().id, b.snapshot().id, "identity of assigning a producer and its output")
    for g in graphs:
        log.clear()
        snap = g.build()
        ctx.check(len(log) == 1, "a fed step ran another number of times than once", runs=len(log))
        for q, n in params.items():
            ctx.check(exact(log[0][q], feed[n][2]), "a producer was fed another value", got=str(log[0][q])[:200], want=str(feed[n][2])[:200])
        ctx.eq(snap.read(g.artifacts["res"], annotation=int), 7, "result")
        if n_out == 2:
            ctx.eq(snap.read(g.artifacts["o.other"], annotation=str), "seven", "second result")
        ctx.n["producers_fed"] += 1
        ctx.seen(("fed", n_out, tuple(src(s) for s in feed.values())))


def nested(ctx, rng):
    """A mapping of plain values makes one artifact per leaf."""
    leaves = {}

    def tree(depth, prefix):
        out = {}
        for i in range(rng.choice([1, 2])):
            name = f"n{i}"
            if depth and rng.random() < 0.4:
                out[name] = tree(depth - 1, f"{prefix}.{name}")
            else:
                k, e, v = good(rng)
                out[name] = v
                leaves[f"{prefix}.{name}"] = (k, e, v)
        return out

    t = tree(2, "top")
    with Graph(name="nested", backend=MemoryBackend()) as g:
        assign(rng, g, "top", t)
    ctx.eq(sorted(k for k, _ in g.artifacts.walk()), sorted(leaves), "leaves of an assigned mapping")
    with Graph(name="nested", backend=MemoryBackend()) as flat:
        for name, (_, _, v) in leaves.items():
            flat.artifacts[name] = v
    ctx.eq(flat.snapshot().id, g.snapshot().id, "identity of a mapping and its leaves")
    for name, (k, e, v) in leaves.items():
        art = g.artifacts[name]
        ctx.check(exact(g.read(art, view=VIEWS[k](mode="READ", type=art.type)), v), "a nested plain value reads back differently", want=str(v)[:200])
    ctx.n["nested_trees"] += 1


def casted(ctx, rng):
    """Values turned into artifacts with `Artifact.cast` (mappings stay one artifact), then assigned."""
    e = rng.choice(SCALARS)
    names = rng.sample(["a", "b", "", "é", "a b", "1", "x.y", '"', "None"], rng.choice([1, 2, 3, 5]))
    v = {k: scalar(rng, e) for k in names}
    given = dict(v)
    art = Artifact.cast(given)
    given["later"] = 1
    ctx.eq(art.type, T.Map(key=T.String(), value=TYPES[e]()), "type of a cast mapping")
    with Graph(name="cast", backend=MemoryBackend()) as g:
        g.artifacts.m = art
    view = V.Dict(mode="READ", type=art.type)
    for who in (g, g.snapshot()):
        got = who.read(g.artifacts.m, view=view)
        ctx.check(type(got) is dict and list(map(repr, got.items())) == list(map(repr, v.items())), "a cast mapping reads back differently", got=str(got)[:200], want=str(v)[:200])
        got["changed"] = 1
        ctx.n["cast_reads"] += 1
    other = {k: scalar(rng, e) for k in names}
    with Graph(name="cast", backend=MemoryBackend()) as h:
        h.artifacts.m = Artifact.cast(other)
    ctx.check((h.snapshot().id == g.snapshot().id) == (repr(other) == repr(v)), "snapshot identity and cast mappings", a=str(v)[:100], b=str(other)[:100])
    # (Values are of the first one's type - or a subclass, eg: bools are ints.)
    alien = rng.choice([x for x in (1, "x", 1.5, None, [1], {"z": 1}, b"b", Custom()) if not isinstance(x, {"int": int, "float": float, "str": str, "bool": bool, "none": type(None)}[e])])
    key = rng.choice([2, 1.5, None, (1, 2), b"k"])
    for what, bad_value in (("a mapping with values of several types", {**v, "alien": alien}), ("a mapping with keys of several types", {**v, key: scalar(rng, e)}), ("an empty mapping", {}), ("a mapping of lists", {"a": [1]}), ("a mapping of objects", {"a": Custom()})):
        try:
            made = Artifact.cast(bad_value)
        except Exception:
            ctx.n["cast_refused"] += 1
        else:
            ctx.check(False, f"cast accepted {what}", value=repr(bad_value)[:200], made=made)
    k, e2, v2 = good(rng)
    art = Artifact.cast(v2)
    ctx.eq(art.type, expected_type(k, e2), "type of a cast value")
    ctx.check(Artifact.cast(art) is art, "casting an artifact")
