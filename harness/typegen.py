"""Types as plain specs (nested tuples): generation, construction, and description of Artigraph types.

(kind, nullable, ...):
  scalars                     ("Int64", n)
  ("Binary", n, byte_size)    ("Geography", n, format, srid)
  ("Time"|"DateTime"|"Timestamp", n, precision)
  ("List"|"Set", n, element)  ("Map", n, key, value)
  ("Struct", n, name, ((field, spec), ...))
  ("Enum", n, name, type_spec, frozenset(items))
  ("Collection", n, name, struct_spec, partition_by, cluster_by)
"""
import datetime

from arti import types as T

FLOATS = ["Float16", "Float32", "Float64"]
INTS = ["Int8", "Int16", "Int32", "Int64"]
UINTS = ["UInt8", "UInt16", "UInt32", "UInt64"]
PLAIN = ["Boolean", "Date", "Null", "String", *FLOATS, *INTS, *UINTS]
TIMES = ["Time", "DateTime", "Timestamp"]
PRECISIONS = ["second", "millisecond", "microsecond", "nanosecond"]
FIELDS = ["a", "b", "c", "d", "e", "long_field_name", "Z", "f1", "f0", "m"]
NAMES = ["anon", "Row", "S", "Other", "R2"]


def gen_scalar(rng, pool=None):
    n = rng.random() < 0.3
    k = rng.choice(pool or [*PLAIN, *PLAIN, "Binary", "Geography", *TIMES, "Enum"])
    if k == "Binary":
        return (k, n, rng.choice([None, None, 0, 1, 4, 16, 3, 4096]))
    if k == "Geography":
        return (k, n, rng.choice([None, "WKT", "WKB"]), rng.choice([None, "4326"]))
    if k in TIMES:
        return (k, n, rng.choice(PRECISIONS))
    if k == "Enum":
        t, items = rng.choice(
            [
                (("String", False), ["a", "b", "c", "zz"]),
                (("Int64", False), [1, 2, 3, -7, 0]),
                (("Int8", False), [1, 2, 3]),
                (("Float64", False), [1.5, -2.25, 0.0]),
                (("Boolean", False), [True, False]),
                (("Binary", False, None), [b"x", b"y"]),
                (("Date", False), [datetime.date(2020, 1, 1), datetime.date(1970, 1, 2)]),
            ]
        )
        return (k, n, rng.choice(NAMES), t, frozenset(rng.sample(items, rng.randint(1, len(items)))))
    return (k, n)


def gen_struct(rng, depth, pool=None, containers=("List", "Set", "Map", "Struct"), minf=0):
    names = rng.sample(FIELDS, rng.randint(minf, 4))
    return ("Struct", rng.random() < 0.2, rng.choice(NAMES), tuple((f, gen(rng, depth - 1, pool, containers)) for f in names))


def gen(rng, depth, pool=None, containers=("List", "Set", "Map", "Struct")):
    if depth <= 0 or rng.random() < 0.35 or not containers:
        return gen_scalar(rng, pool)
    k = rng.choice(containers)
    n = rng.random() < 0.2
    if k in ("List", "Set"):
        return (k, n, gen(rng, depth - 1, pool, containers))
    if k == "Map":
        return (k, n, gen_scalar(rng, pool), gen(rng, depth - 1, pool, containers))
    if k == "Collection":
        return gen_collection(rng, depth, pool, tuple(c for c in containers if c != "Collection"))
    return gen_struct(rng, depth, pool, containers)


def gen_collection(rng, depth, pool=None, containers=("List", "Map", "Struct"), names=None):
    s = gen_struct(rng, depth - 1, pool, containers, minf=1)
    fields = [f for f, _ in s[3]]
    rng.shuffle(fields)
    i = rng.randint(0, len(fields))
    j = rng.randint(i, len(fields))
    if rng.random() < 0.4:
        i = j = 0
    return ("Collection", rng.random() < 0.1, rng.choice(names or NAMES), s, tuple(fields[:i]), tuple(fields[i:j]))


def build(s, extra=None):
    """`extra()` (if given) returns further keyword arguments for each constructed type."""
    k, n = s[0], s[1]
    kw = {"nullable": n, **(extra() if extra else {})}
    if k == "Binary":
        return T.Binary(byte_size=s[2], **kw)
    if k == "Geography":
        return T.Geography(format=s[2], srid=s[3], **kw)
    if k in TIMES:
        return getattr(T, k)(precision=s[2], **kw)
    if k in ("List", "Set"):
        return getattr(T, k)(element=build(s[2], extra), **kw)
    if k == "Map":
        return T.Map(key=build(s[2], extra), value=build(s[3], extra), **kw)
    if k == "Struct":
        return T.Struct(name=s[2], fields={f: build(x, extra) for f, x in s[3]}, **kw)
    if k == "Enum":
        return T.Enum(name=s[2], type=build(s[3], extra), items=s[4], **kw)
    if k == "Collection":
        return T.Collection(name=s[2], element=build(s[3], extra), partition_by=s[4], cluster_by=s[5], **kw)
    return getattr(T, k)(**kw)


def mutate(rng, s, pool=None):
    """A spec differing from `s` in one place (any depth)."""
    k = s[0]
    kids = {"List": (2,), "Set": (2,), "Map": (2, 3)}.get(k, ())
    if k in ("Struct",) and s[3] and rng.random() < 0.6:
        i = rng.randrange(len(s[3]))
        f, x = s[3][i]
        x = mutate(rng, x, pool)
        return (*s[:3], (*s[3][:i], (f, x), *s[3][i + 1 :]))
    if k == "Collection" and rng.random() < 0.6:
        m = mutate(rng, s[3], pool)
        names = [f for f, _ in m[3]] if m[0] == "Struct" else None
        if names is not None and set(s[4] + s[5]) <= set(names):
            return (*s[:3], m, *s[4:])
    if kids and rng.random() < 0.6:
        i = rng.choice(kids)
        return (*s[:i], mutate(rng, s[i], pool), *s[i + 1 :])
    opts = [nul(s, not s[1])]

    def other(i, pool):
        opts.append((*s[:i], rng.choice([x for x in pool if x != s[i]]), *s[i + 1 :]))

    if k == "Binary":
        other(2, [None, 1, 2, 3, 1000])
    elif k == "Geography":
        other(2, [None, "WKT", "WKB", "X"])
        other(3, [None, "4326", "3857"])
    elif k in TIMES:
        other(2, PRECISIONS)
        opts.append((rng.choice([t for t in TIMES if t != k]), *s[1:]))
    elif k in ("List", "Set"):
        opts.append(({"List": "Set", "Set": "List"}[k], *s[1:]))
    elif k == "Map":
        if s[2] != s[3]:
            opts.append((k, s[1], s[3], s[2]))
    elif k == "Struct":
        other(2, [*NAMES, "anon2"])
        free = [f for f in FIELDS if f not in dict(s[3])]
        opts.append((*s[:3], (*s[3], (free[0], ("Int64", False)))))
        if s[3]:
            i = rng.randrange(len(s[3]))
            opts.append((*s[:3], (*s[3][:i], (free[-1], s[3][i][1]), *s[3][i + 1 :])))
    elif k == "Enum":
        other(2, [*NAMES, "anon2"])
        if len(s[4]) > 1:
            opts.append((*s[:4], s[4] - {min(s[4])}))
        if s[3][0] == "String":
            opts.append((*s[:4], s[4] | {"new"}))
        if s[3][0] in INTS:
            opts.append((*s[:4], s[4] | {99}))
            opts.append((*s[:3], (next(t for t in INTS if t != s[3][0]), False), s[4]))
    elif k == "Collection":
        other(2, [*NAMES, "anon2"])
        if s[4]:
            opts.append((*s[:4], s[4][:-1], s[5]))
            opts.append((*s[:4], s[4][:-1], (s[4][-1], *s[5])))
        if len(s[4]) > 1:
            opts.append((*s[:4], s[4][::-1], s[5]))
        if s[5]:
            opts.append((*s[:5], s[5][:-1]))
        if len(s[5]) > 1:
            opts.append((*s[:5], s[5][::-1]))
        opts.append(("List", s[1], s[3]))
    elif k in PLAIN:
        opts.append((rng.choice([t for t in (pool or PLAIN) if t != k]), *s[1:]))
    return rng.choice(opts)


def describe(t):
    """The spec of an Artigraph type, read only through its public fields."""
    k, n = type(t).__name__, t.nullable
    assert getattr(T, k) is type(t), t
    if k == "Binary":
        return (k, n, t.byte_size)
    if k == "Geography":
        return (k, n, t.format, t.srid)
    if k in TIMES:
        return (k, n, t.precision)
    if k in ("List", "Set"):
        return (k, n, describe(t.element))
    if k == "Map":
        return (k, n, describe(t.key), describe(t.value))
    if k == "Struct":
        return (k, n, t.name, tuple((f, describe(x)) for f, x in t.fields.items()))
    if k == "Enum":
        return (k, n, t.name, describe(t.type), frozenset(t.items))
    if k == "Collection":
        return (k, n, t.name, describe(t.element), t.partition_by, t.cluster_by)
    return (k, n)


def nn(s):
    return (s[0], False, *s[2:])


def nul(s, n=True):
    return (s[0], n, *s[2:])
