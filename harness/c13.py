"""C13: type conversions against an independent reference for the six supported type systems.

For each system: `out(spec)` is the reference foreign description (or Reject), `seen(obj)` describes a
real foreign object, `back(spec)` is the spec the documented losses leave.
"""
import datetime
import decimal
import enum
import uuid
import warnings
from collections.abc import Callable, Iterable, Mapping, Sequence
from typing import Any, Literal, NamedTuple, NewType, Optional, TypedDict, TypeVar, Union, get_args, get_origin, get_type_hints, is_typeddict
import types as pytypes

import numpy as np
import pandas as pd
import pyarrow as pa
from google.cloud import bigquery
from pydantic import BaseModel, Field, create_model

from arti import types as T
from arti.types.bigquery import bigquery_type_system
from arti.types.numpy import numpy_type_system
from arti.types.pandas import pandas_type_system
from arti.types.pyarrow import pyarrow_type_system
from arti.types.pydantic import pydantic_type_system
from arti.types.python import python_type_system

from core import Violation
from typegen import FIELDS, FLOATS, INTS, NAMES, PRECISIONS, UINTS, build, describe, gen, gen_collection, gen_scalar, gen_struct, nn, nul

PROP = "C13"
CASES = {"quick": 40000, "thorough": 400000}
SECONDS = {"quick": 100, "thorough": 900}
warnings.simplefilter("ignore")


class Reject(Exception):
    pass


class May(Exception):
    """The target may refuse (at either step), but must not produce something else."""


# ----------------------------------------------------------------- python
PYSCALAR = {"Boolean": bool, "Date": datetime.date, "String": str, "Binary": bytes, "Timestamp": datetime.datetime, "Null": type(None)}
WRITTEN = {int: "int", str: "str", float: "float", bool: "bool", bytes: "bytes"}
PYSCALAR |= {k: float for k in FLOATS} | {k: int for k in INTS}


class Python:
    key, ts = "python", python_type_system
    model = False

    @classmethod
    def struct(cls, s):
        return ("td", s[2], tuple((f, cls.out(x)) for f, x in s[3]))

    @classmethod
    def out(cls, s):
        k, n = s[0], s[1]
        if n and k != "Null":
            return ("opt", cls.out(nn(s)))
        if k in PYSCALAR:
            return ("cls", PYSCALAR[k])
        if k in ("List", "Set"):
            return (k.lower(), cls.out(s[2]))
        if k == "Collection":
            return ("list", cls.out(s[3]))
        if k == "Map":
            return ("dict", cls.out(s[2]), cls.out(s[3]))
        if k == "Enum":
            return ("lit", frozenset((type(i), i) for i in s[4]))
        if k == "Struct":
            return cls.struct(s)
        raise Reject(k)

    @classmethod
    def back(cls, s):
        k, n = s[0], s[1]
        if k == "Null":
            return (k, False)
        if k in INTS:
            return ("Int64", n)
        if k in FLOATS:
            return ("Float64", n)
        if k == "Binary":
            return (k, n, None)
        if k == "Timestamp":
            return (k, n, "microsecond")
        if k in ("List", "Set"):
            return (k, n, cls.back(s[2]))
        if k == "Collection":
            return ("List", n, cls.back(s[3]))
        if k == "Map":
            return (k, n, cls.back(s[2]), cls.back(s[3]))
        if k == "Enum":
            return (k, n, "anon", cls.back(s[3]), s[4])
        if k == "Struct":
            return (k, n, s[2], tuple((f, cls.rename(f, cls.back(x))) for f, x in s[3]))
        return s

    @classmethod
    def rename(cls, field, s):
        return s

    @classmethod
    def seen(cls, h):
        if h is None or h is type(None):
            return ("cls", type(None))
        o, a = get_origin(h), get_args(h)
        if o is Union or o is pytypes.UnionType:
            rest = [x for x in a if x is not type(None)]
            assert len(rest) == len(a) - 1 == 1, h
            return ("opt", cls.seen(rest[0]))
        if o is Literal:
            return ("lit", frozenset((type(i), i) for i in a))
        if o in (list, set):
            assert len(a) == 1, h
            return (o.__name__, cls.seen(a[0]))
        if o is dict:
            return ("dict", cls.seen(a[0]), cls.seen(a[1]))
        if is_typeddict(h):
            assert h.__total__ and not h.__optional_keys__, h
            return ("td", h.__name__, tuple((f, cls.seen(x)) for f, x in get_type_hints(h).items()))
        if isinstance(h, type) and issubclass(h, BaseModel):
            assert all(x.is_required() for x in h.model_fields.values()), h
            return ("model", h.__name__, tuple((f, cls.seen(x.annotation)) for f, x in h.model_fields.items()))
        assert isinstance(h, type) and o is None, h
        return ("cls", h)

    @classmethod
    def gen(cls, rng):
        return gen(rng, rng.choice([0, 1, 2, 3, 4])) if rng.random() < 0.9 else gen_collection(rng, 3)

    # --- foreign hints: (hint, expected spec, canonical outgoing description)
    @classmethod
    def foreign(cls, rng, depth):
        r = rng.random()
        if r < 0.06:
            raise_it = rng.choice([object, complex, datetime.time, Union[int, str], tuple[int, str], list, dict, int | str, Literal[1, "a"], bytearray, type, Union[int, Literal[1]],
                                   Literal[2, True], Literal[True, 2], Literal["a", b"a"], Literal[1, None], Union[Literal[1], Literal["a"]], Union[Literal["a"], Literal["b", 1]], Union[Literal[5], Literal[True]], tuple[int, ...] | int, Union[list[int], list[str]],
                                   int | str | None, Union[int, None, str], Optional[Union[datetime.date, bytes]], tuple, set, frozenset, tuple[int], tuple[()], tuple[int, int], Sequence[int], Iterable[int], Callable[[], int], Any, decimal.Decimal,
                                   uuid.UUID, datetime.timedelta, NewType("N", int), TypeVar("V"), NamedTuple("P", [("a", int)]), enum.Enum("En", ["a"]), range, memoryview, np.int64, np.ndarray, pd.Series])
            return raise_it, Reject, None
        if depth <= 0 or r < 0.4:
            hint, spec = rng.choice(
                [(bool, ("Boolean", False)), (int, ("Int64", False)), (float, ("Float64", False)), (str, ("String", False)), (bytes, ("Binary", False, None)),
                 (datetime.date, ("Date", False)), (datetime.datetime, ("Timestamp", False, "microsecond")), (None, ("Null", False))])
            return hint, spec, cls.out(spec)
        kind = rng.choice(["opt", "list", "tuple", "set", "frozenset", "dict", "mapping", "lit", "ulit", "td", "td"] + (["model"] * 4 if cls.model else []))
        if kind in ("lit", "ulit"):
            t, items = rng.choice([(("String", False), ["a", "b", "c"]), (("Int64", False), [1, 2, 3]), (("Boolean", False), [True, False])])
            items = rng.sample(items, rng.randint(1, len(items)))
            hint = Literal[tuple(items)] if kind == "lit" else Union[tuple(Literal[i] for i in items)]
            spec = ("Enum", False, "anon", t, frozenset(items))
            return hint, spec, cls.out(spec)
        if kind in ("td", "model"):
            name, fields = rng.choice(NAMES), rng.sample(FIELDS, rng.randint(0, 4))
            subs = [(f, cls.foreign(rng, depth - 1)) for f in fields]
            if kind == "td":
                # (Annotations may be written as strings.)
                hint = TypedDict(name, {f: WRITTEN.get(x[0], x[0]) if isinstance(x[0], type) and rng.random() < 0.15 else x[0] for f, x in subs})
            else:
                # Defaults, aliases, etc. of a field do not change which fields there are, nor their types.
                dflt = [rng.choice([..., ..., None, None, Field(alias=rng.choice(FIELDS)), Field(None, alias="Al"), Field(validation_alias="va", serialization_alias="sa"), Field(exclude=True), Field(default_factory=list), Field(description="d", title="t", repr=False)]) for _ in subs]
                hint = create_model(name, __config__={"arbitrary_types_allowed": True}, **{f: (type(None) if x[0] is None else x[0], d) for (f, x), d in zip(subs, dflt)})
            if any(x[1] is Reject for _, x in subs):
                return hint, Reject, None
            spec = ("Struct", False, name, tuple((f, cls.rename(f, x[1]) if kind == "model" else x[1]) for f, x in subs))
            return hint, spec, cls.safe_out(spec)
        inner, spec, _ = cls.foreign(rng, depth - 1)
        if kind == "opt":
            if inner is None or spec is Reject:
                return (None, ("Null", False), ("cls", type(None))) if inner is None else (inner, Reject, None)
            hint = Optional[inner] if rng.random() < 0.5 or get_origin(inner) is Literal or isinstance(inner, str) else inner | None
            spec = nul(spec)
            return hint, spec, cls.safe_out(spec)
        if kind in ("dict", "mapping"):
            khint, kspec, _ = cls.foreign(rng, 0)
            hint = dict[khint, inner] if kind == "dict" else Mapping[khint, inner]
            bad = kspec is Reject or spec is Reject
            spec = None if bad else ("Map", False, kspec, spec)
        else:
            hint = {"list": lambda: list[inner], "tuple": lambda: tuple[inner, ...], "set": lambda: set[inner], "frozenset": lambda: frozenset[inner]}[kind]()
            bad = spec is Reject
            spec = None if bad else ("List" if kind in ("list", "tuple") else "Set", False, spec)
        if bad:
            return hint, Reject, None
        return hint, spec, cls.safe_out(spec)

    @classmethod
    def safe_out(cls, spec):
        try:
            return cls.out(spec)
        except May:
            return May


class Pydantic(Python):
    key, ts = "pydantic", pydantic_type_system
    model = True

    @classmethod
    def struct(cls, s):
        if any(f.startswith("_") for f, _ in s[3]):
            raise Reject("underscore")
        fields = tuple((f, cls.out(x)) for f, x in s[3])
        if any(x[0] == "Null" for _, x in s[3]):
            raise May("pydantic has no None fields")
        return ("model", s[2], fields)

    @classmethod
    def rename(cls, field, s):
        return (s[0], s[1], field, *s[3:]) if s[0] in ("Struct", "Enum") else s

    @classmethod
    def gen(cls, rng):
        if rng.random() < 0.05:
            return ("Struct", False, "S", (("a", ("Int64", False)), ("_b", ("String", False))))
        return gen_struct(rng, rng.choice([1, 2, 3])) if rng.random() < 0.6 else super().gen(rng)


# ----------------------------------------------------------------- numpy
NP = {"Boolean": np.bool_, "String": np.str_, "Binary": np.bytes_} | {k: getattr(np, k.lower()) for k in FLOATS + INTS + UINTS}


class Numpy:
    key, ts = "numpy", numpy_type_system

    @classmethod
    def out(cls, s):
        if s[0] in NP:
            return ("cls", NP[s[0]])
        if s[0] == "List":
            kind, *e = cls.out(s[2])
            return ("arr", 1, e[0]) if kind == "cls" else ("arr", e[0] + 1, e[1])
        raise Reject(s[0])

    @classmethod
    def back(cls, s):
        return ("List", False, cls.back(s[2])) if s[0] == "List" else (s[0], False, *((None,) if s[0] == "Binary" else ()))

    @classmethod
    def seen(cls, f):
        if isinstance(f, np.ndarray):
            return ("arr", f.ndim, f.dtype.type)
        assert isinstance(f, type), f
        return ("cls", f)

    @classmethod
    def gen(cls, rng):
        pool = None if rng.random() < 0.2 else [*NP]
        conts = ("List",) if rng.random() < 0.8 else ("List", "Set", "Map", "Struct", "Collection")
        return gen(rng, rng.choice([0, 1, 2, 3]), pool, conts)

    @classmethod
    def foreign(cls, rng, depth):
        if rng.random() < 0.15:
            bad = rng.choice([np.complex64, np.dtype("datetime64[ns]"), np.dtype("timedelta64[s]"), np.dtype("O"), np.dtype([("a", "i4")]), np.array([1j]), np.array([None]),
                              np.array([np.datetime64("2020-01-01")]), np.array([(1, 2)], dtype=[("a", "i4"), ("b", "i8")]), float, np.longdouble, np.array([np.longdouble(1)]), np.complex128, np.dtype("V8"), np.datetime64, np.timedelta64, np.object_, np.void, np.dtype(("i4", (2,))), np.array([np.timedelta64(1, "s")]), int, str, object])
            return bad, Reject, None
        k = rng.choice([k for k in NP if k not in ("Binary", "String")])
        spec = (k, False)
        form = rng.choice(["cls", "dtype", "arr"])
        if form == "cls":
            k = rng.choice([*NP])
            spec = (k, False, None) if k == "Binary" else (k, False)
            return NP[k], spec, ("cls", NP[k])
        if form == "dtype":
            return np.dtype(NP[k]), spec, ("cls", NP[k])
        nd = rng.randint(1, 4)
        shape = [rng.randint(1, 3) for _ in range(nd)]
        if rng.random() < 0.3:
            k, arr = rng.choice([("String", np.full(shape, "abc")), ("Binary", np.full(shape, b"xy"))])
            spec = (k, False, None) if k == "Binary" else (k, False)
        else:
            arr = np.ones(shape, dtype=NP[k])
        if rng.random() < 0.2:
            arr = np.asfortranarray(arr)
        for _ in range(nd):
            spec = ("List", False, spec)
        return arr, spec, ("arr", nd, NP[k])


# ----------------------------------------------------------------- pandas
class Pandas:
    key, ts = "pandas", pandas_type_system

    @classmethod
    def col(cls, s):
        if s[0] == "Binary":
            raise May("bytes columns")
        if s[0] in NP:
            return object if s[0] == "String" else NP[s[0]]
        raise Reject(s[0])

    @classmethod
    def out(cls, s):
        if s[0] == "Collection":
            s = ("List", False, s[3])
        if s[0] in NP:
            return ("cls", NP[s[0]])
        if s[0] == "List" and s[2][0] == "Struct":
            cols, may = [], None
            for f, x in s[2][3]:
                try:
                    cols.append((f, cls.col(x)))
                except May as e:
                    may = e
            if may:
                raise may
            return ("df", tuple(cols))
        if s[0] == "List":
            return ("series", cls.col(s[2]))
        raise Reject(s[0])

    @classmethod
    def back(cls, s):
        if s[0] in NP:
            return Numpy.back(s)
        e = s[3] if s[0] == "Collection" else s[2]
        if e[0] == "Struct":
            return ("List", False, ("Struct", False, "anon", tuple((f, Numpy.back(x)) for f, x in e[3])))
        return ("List", False, Numpy.back(e))

    @classmethod
    def seen(cls, f):
        if isinstance(f, pd.DataFrame):
            return ("df", tuple((c, f[c].dtype.type if f[c].dtype != object else object) for c in f.columns)) if len(f.columns) else ("df", ())
        if isinstance(f, pd.Series):
            return ("series", f.dtype.type if f.dtype != object else object)
        return ("cls", f)

    @classmethod
    def norm(cls, d):
        conv = {np.object_: object}
        if d[0] == "df":
            return ("df", tuple((c, conv.get(t, t)) for c, t in d[1]))
        return (d[0], conv.get(d[1], d[1]))

    @classmethod
    def gen(cls, rng):
        pool = None if rng.random() < 0.2 else [*NP, "String"]
        conts = () if rng.random() < 0.7 else ("List", "Map", "Struct")
        r = rng.random()
        if r < 0.15:
            return gen(rng, 2, pool, conts)
        if r < 0.4:
            return ("List", rng.random() < 0.2, gen(rng, 1, pool, conts))
        if r < 0.5:
            return gen_collection(rng, 2, pool, conts)
        return ("List", rng.random() < 0.2, gen_struct(rng, 1 + bool(conts), pool, conts))

    @classmethod
    def foreign(cls, rng, depth):
        def series(n):
            if rng.random() < 0.06:
                return rng.choice([pd.Series(pd.Categorical(["a"] * n)), pd.Series(pd.to_datetime(["2020-01-01"] * n)), pd.Series([1j] * n), pd.Series([None] * n, dtype=object),
                                   pd.Series([b"x"] * n), pd.Series([[1]] * n), pd.Series([{}] * n), pd.Series([datetime.date(2020, 1, 1)] * n), pd.Series(pd.to_timedelta([1] * n))]), Reject, None
            if rng.random() < 0.25:
                return pd.Series(["abc"] * n), ("String", False), object
            k = rng.choice([k for k in NP if k not in ("Binary", "String")])
            return pd.Series(np.ones(n), dtype=NP[k]), (k, False), NP[k]

        def indexed(x):
            """What labels the rows (or names a series) is no part of the type."""
            how = rng.choice(["as is", "as is", "shifted", "strings", "repeated", "dates", "filtered", "reversed", "named"])
            if how == "shifted":
                x.index = range(5, 5 + len(x))
            elif how == "strings":
                x.index = [f"r{i}" for i in range(len(x))]
            elif how == "repeated":
                x.index = [0] * len(x)
            elif how == "dates":
                x.index = pd.date_range("2020-01-01", periods=len(x))
            elif how == "filtered" and len(x) > 1:
                x = x[[False, *([True] * (len(x) - 1))]]
            elif how == "reversed":
                x = x.iloc[::-1]
            elif how == "named":
                x.index.name = "idx"
            if isinstance(x, pd.Series):
                x.name = rng.choice([None, "s", 0, "a"])
            return x

        n = rng.randint(1, 4)
        if rng.random() < 0.3:
            s, spec, d = series(n)
            s = indexed(s)
            return (s, Reject, None) if spec is Reject else (s, ("List", False, spec), ("series", d))
        cols = [(f, series(n)) for f in rng.sample(FIELDS, rng.randint(0, 5))]
        df = indexed(pd.DataFrame({f: x[0] for f, x in cols}))
        if cols and rng.random() < 0.05:  # labels that name no field
            df.columns = rng.choice([range(len(cols)), [*df.columns[:-1], len(cols)], [None, *df.columns[1:]], [1.5, *df.columns[1:]], [("a", i) for i in range(len(cols))], pd.date_range("2020-01-01", periods=len(cols)), [b"x", *df.columns[1:]]])
            return df, Reject, None
        if any(x[1] is Reject for _, x in cols):
            return df, Reject, None
        return df, ("List", False, ("Struct", False, "anon", tuple((f, x[1]) for f, x in cols))), ("df", tuple((f, x[2]) for f, x in cols))


# ----------------------------------------------------------------- pyarrow
UNIT = {"second": "s", "millisecond": "ms", "microsecond": "us", "nanosecond": "ns"}
PA = {"String": "string", "Null": "null", "Date": "date64[day]", "Boolean": "bool", "Float16": "halffloat", "Float32": "float", "Float64": "double"}
PA |= {k: k.lower() for k in INTS + UINTS}


class Pyarrow:
    key, ts = "pyarrow", pyarrow_type_system

    @classmethod
    def fields(cls, s):
        out = tuple((f, x[1], cls.out(x, False)) for f, x in s[3])
        if any(x[0] == "Null" and not x[1] for _, x in s[3]):
            raise Reject("non-nullable null field")
        return out

    @classmethod
    def out(cls, s, root=True):
        k = s[0]
        if k in PA:
            return ("t", PA[k])
        if k == "Binary":
            return ("t", "binary") if s[2] is None else ("fixed", s[2])
        if k == "Geography":
            return ("t", "binary" if s[2] == "WKB" else "string")
        if k == "Time":
            return ("time32" if s[2] in ("second", "millisecond") else "time64", UNIT[s[2]])
        if k == "DateTime":
            return ("ts", UNIT[s[2]], None)
        if k == "Timestamp":
            return ("ts", UNIT[s[2]], "UTC")
        if k == "List":
            return ("list", cls.out(s[2], False))
        if k == "Map":
            if s[2][0] == "Null":
                raise Reject("null keys")
            return ("map", cls.out(s[2], False), cls.out(s[3], False))
        if k == "Struct":
            return ("struct", cls.fields(s))
        if k == "Collection" and root:
            return ("schema", cls.fields(s[3]), s[2], s[4], s[5])
        raise Reject(k)

    @classmethod
    def back(cls, s):
        k = s[0]
        if k == "Geography":
            return ("Binary", False, None) if s[2] == "WKB" else ("String", False)
        if k == "List":
            return (k, False, cls.back(s[2]))
        if k == "Map":
            return (k, False, cls.back(s[2]), cls.back(s[3]))
        if k == "Struct":
            return (k, False, "anon", tuple((f, nul(cls.back(x), x[1])) for f, x in s[3]))
        if k == "Collection":
            return (k, False, s[2], cls.back(s[3]), s[4], s[5])
        return nn(s)

    @classmethod
    def seen(cls, f):
        if isinstance(f, pa.Schema):
            import json

            m = json.loads(f.metadata[b"artigraph"]) if f.metadata and b"artigraph" in f.metadata else {}
            return ("schema", tuple((x.name, x.nullable, cls.seen(x.type)) for x in f), m.get("name", "anon"), tuple(m.get("partition_by", ())), tuple(m.get("cluster_by", ())))
        assert isinstance(f, pa.DataType), f
        if pa.types.is_fixed_size_binary(f):
            return ("fixed", f.byte_width)
        if pa.types.is_timestamp(f):
            return ("ts", f.unit, f.tz)
        if pa.types.is_time32(f) or pa.types.is_time64(f):
            return ("time32" if pa.types.is_time32(f) else "time64", f.unit)
        if pa.types.is_list(f):
            return ("list", cls.seen(f.value_type))
        if pa.types.is_map(f):
            return ("map", cls.seen(f.key_type), cls.seen(f.item_type))
        if pa.types.is_struct(f):
            return ("struct", tuple((x.name, x.nullable, cls.seen(x.type)) for x in f))
        names = {pa.date64(): "date64[day]", pa.string(): "string", pa.binary(): "binary", pa.null(): "null", pa.bool_(): "bool", pa.float16(): "halffloat", pa.float32(): "float", pa.float64(): "double"}
        return ("t", names.get(f) or str(f))

    @classmethod
    def gen(cls, rng):
        conts = ("List", "Map", "Struct", "Struct") if rng.random() < 0.85 else ("List", "Map", "Struct", "Set", "Collection")
        pool = None if rng.random() < 0.15 else [k for k in [*PA, "Binary", "Geography", "Time", "DateTime", "Timestamp"] if k != "Null" or rng.random() < 0.2]
        return gen_collection(rng, 3, pool, conts) if rng.random() < 0.3 else gen(rng, rng.choice([0, 1, 2, 3, 4]), pool, conts)

    @classmethod
    def foreign(cls, rng, depth):
        r = rng.random()
        if r < 0.04:
            away = rng.choice(["UTC+05:30", "UTC-8", "utc+1", "Europe/London", "Etc/GMT+1", "-00:30", "+05:30", "Asia/Kolkata", "EST", " UTC-", "UTCX", "Pacific/Auckland", "NOT-UTC"])
            return pa.timestamp(rng.choice([*UNIT.values()]), away), Reject, None
        if r < 0.08:
            ext = rng.choice([pa.string_view(), pa.binary_view(), pa.list_view(pa.int8()), pa.large_list_view(pa.int8()), pa.dense_union([pa.field("a", pa.int8())]), pa.sparse_union([pa.field("a", pa.int8())]),
                              pa.run_end_encoded(pa.int32(), pa.int8()), pa.decimal256(20, 2), pa.decimal128(1, 0), pa.list_(pa.int8(), 1), pa.duration("ns"), pa.dictionary(pa.int8(), pa.int8())])
            bad = rng.choice([ext, pa.decimal128(10, 2), pa.dictionary(pa.int32(), pa.string()), pa.large_string(), pa.large_binary(), pa.large_list(pa.int8()), pa.duration("s"),
                              pa.timestamp("s", "America/New_York"), pa.timestamp("us", "+01:00"), pa.list_(pa.int8(), 3), pa.month_day_nano_interval()])
            return bad, Reject, None
        if depth <= 0 or r < 0.38:
            spec = gen_scalar(rng, [*PA, "Binary", "Time", "DateTime", "Timestamp"])
            spec = nn(spec)
            f = {"date64[day]": pa.date64(), "halffloat": pa.float16(), "float": pa.float32(), "double": pa.float64(), "bool": pa.bool_()}.get(PA.get(spec[0]))
            if f is None and spec[0] in PA:
                f = getattr(pa, PA[spec[0]])()
            if spec[0] == "Date" and rng.random() < 0.5:
                f = pa.date32()
            if spec[0] == "Binary":
                f = pa.binary() if spec[2] is None else pa.binary(spec[2])
            if spec[0] == "Time":
                f = (pa.time32 if spec[2] in ("second", "millisecond") else pa.time64)(UNIT[spec[2]])
            if spec[0] == "DateTime":
                f = pa.timestamp(UNIT[spec[2]])
            if spec[0] == "Timestamp":
                f = pa.timestamp(UNIT[spec[2]], rng.choice(["UTC", "utc"]))
            return f, spec, cls.out(spec)
        kind = rng.choice(["list", "map", "struct", "struct"] + (["schema"] * 3 if depth == 3 else []))
        if kind == "list":
            f, spec, _ = cls.foreign(rng, depth - 1)
            if isinstance(f, pa.Schema):
                return f, spec, _
            f = pa.list_(f) if rng.random() < 0.5 else pa.list_(pa.field("element", f))
            return (f, Reject, None) if spec is Reject else (f, ("List", False, spec), cls.out(("List", False, spec)))
        if kind == "map":
            (kf, ks, _), (f, spec, _) = cls.foreign(rng, 0), cls.foreign(rng, depth - 1)
            if isinstance(f, pa.Schema) or ks is Reject or kf == pa.null():
                return f, spec, None if spec is Reject else cls.out(spec)
            f = pa.map_(kf, f)
            return (f, Reject, None) if spec is Reject else (f, ("Map", False, ks, spec), cls.out(("Map", False, ks, spec)))
        subs = [(n, *cls.foreign(rng, depth - 1 if depth < 3 else 2)) for n in rng.sample(FIELDS, rng.randint(0, 4))]
        subs = [(n, f, s, rng.random() < 0.5 or f == pa.null()) for n, f, s, _ in subs]
        fields = [pa.field(n, f, nullable=nl, metadata={"k": "v"} if rng.random() < 0.1 else None) for n, f, s, nl in subs]
        f = pa.schema(fields, metadata={"other": "x"} if rng.random() < 0.3 else None) if kind == "schema" else pa.struct(fields)
        if any(s is Reject for _, _, s, _ in subs):
            return f, Reject, None
        spec = ("Struct", False, "anon", tuple((n, nul(s, nl)) for n, _, s, nl in subs))
        if kind == "schema":
            spec = ("Collection", False, "anon", spec, (), ())
        return f, spec, cls.out(spec)


# ----------------------------------------------------------------- bigquery
BQ = {"Binary": "BYTES", "Boolean": "BOOLEAN", "Date": "DATE", "Geography": "GEOGRAPHY", "String": "STRING", "Time": "TIME", "DateTime": "DATETIME", "Timestamp": "TIMESTAMP"}
BQ |= {k: "FLOAT" for k in FLOATS} | {k: "INTEGER" for k in INTS}


class BigQuery:
    key, ts = "bigquery", bigquery_type_system

    @classmethod
    def out(cls, s, name="anon", root=True):
        k, mode = s[0], "NULLABLE" if s[1] else "REQUIRED"
        if k in BQ:
            return (name, BQ[k], mode, ())
        if k == "Struct":
            return (name, "RECORD", mode, tuple(cls.out(x, f, False) for f, x in s[3]))
        if k == "List":
            if s[2][0] in ("List", "Collection"):
                raise Reject("nested arrays")
            n, t, _, fs = cls.out(nn(s[2]), name, False)
            return (n, t, "REPEATED", fs)
        if k == "Collection":
            if not root:
                raise Reject("nested collection")
            part, clus = s[4], s[5]
            fs = cls.out(s[3])[3]
            tname = "project.dataset.table" if s[2] == "anon" else s[2]
            if tname.count(".") != 2:
                raise Reject("name")
            if part and dict(s[3][3])[part[0]][0] not in ("Date", "DateTime", "Timestamp"):
                raise Reject("partition type")
            return ("table", tname, fs, ("DAY", part[0]) if part else None, (*part[1:], *clus))
        raise Reject(k)

    @classmethod
    def back(cls, s):
        k, n = s[0], s[1]
        if k in FLOATS:
            return ("Float64", n)
        if k in INTS:
            return ("Int64", n)
        if k in ("Time", "DateTime", "Timestamp"):
            return (k, n, "microsecond")
        if k == "Binary":
            return (k, n, None)
        if k == "Geography":
            return (k, n, None, None)
        if k == "Struct":
            return (k, n, "anon", tuple((f, cls.back(x)) for f, x in s[3]))
        if k == "List":
            return (k, False, nn(cls.back(s[2])))
        if k == "Collection":
            return (k, False, "project.dataset.table" if s[2] == "anon" else s[2], nn(cls.back(s[3])), s[4][:1], (*s[4][1:], *s[5]))
        return s

    @classmethod
    def seen(cls, f):
        if isinstance(f, bigquery.Table):
            tp = f.time_partitioning
            assert f.range_partitioning is None
            return ("table", f"{f.project}.{f.dataset_id}.{f.table_id}", tuple(cls.seen(x) for x in f.schema), (tp.type_, tp.field) if tp else None, tuple(f.clustering_fields or ()))
        assert isinstance(f, bigquery.SchemaField), f
        return (f.name, f.field_type.upper(), f.mode, tuple(cls.seen(x) for x in f.fields))

    @classmethod
    def gen(cls, rng):
        ok = [*BQ]
        pool = None if rng.random() < 0.15 else ok
        conts = ("Struct",) if rng.random() < 0.2 else ("List", "Struct", "Struct") if rng.random() < 0.85 else ("List", "Map", "Set", "Struct", "Collection")
        if rng.random() < 0.35:
            if rng.random() < 0.5:
                pool = ["Date", "DateTime", "Timestamp", "String", "Int64"]
            return gen_collection(rng, 3, pool, conts, names=["anon", "p.d.t", "my-proj.ds.tbl", "p.d.t", "unqualified"] if rng.random() < 0.3 else ["anon", "p.d.t"])
        return gen(rng, rng.choice([0, 1, 2, 3]), pool, conts)

    @classmethod
    def field(cls, rng, name, depth):
        """SchemaField, spec, outgoing description"""
        mode = rng.choice(["NULLABLE", "REQUIRED", "REPEATED"])
        desc = rng.choice([None, None, "some text"])
        r = rng.random()
        if r < 0.05:
            return bigquery.SchemaField(name, rng.choice(["NUMERIC", "BIGNUMERIC", "JSON", "INTERVAL"]), mode), Reject, None
        if depth > 0 and r < 0.4:
            subs = [cls.field(rng, f, depth - 1) for f in rng.sample(FIELDS, rng.randint(0, 4))]
            f = bigquery.SchemaField(name, "RECORD", mode, description=desc, fields=[x[0] for x in subs])
            if any(x[1] is Reject for x in subs):
                return f, Reject, None
            spec = ("Struct", mode == "NULLABLE", "anon", tuple((x[0].name, x[1]) for x in subs))
        else:
            spec = gen_scalar(rng, ["Binary", "Boolean", "Date", "Geography", "String", "Time", "DateTime", "Timestamp", "Float64", "Int64"])
            spec = cls.back((spec[0], mode == "NULLABLE", *spec[2:]))
            f = bigquery.SchemaField(name, BQ[spec[0]], mode, description=desc)
        if mode == "REPEATED":
            spec = ("List", False, nn(spec))
        return f, spec, cls.out(spec, name, False)

    @classmethod
    def foreign(cls, rng, depth):
        if rng.random() < 0.5:
            return cls.field(rng, "anon", 3)
        subs = [cls.field(rng, f, 2) for f in rng.sample(FIELDS, rng.randint(1, 5))]
        t = bigquery.Table("pp.dd.tt", schema=[x[0] for x in subs])
        bad = any(x[1] is Reject for x in subs)
        part = clus = ()
        timey = [x[0].name for x in subs if x[0].field_type in ("DATE", "DATETIME", "TIMESTAMP") and x[0].mode != "REPEATED"]
        r = rng.random()
        if timey and r < 0.7:
            part = (rng.choice(timey),)
            kind = "DAY" if rng.random() < 0.8 else rng.choice(["HOUR", "MONTH", "YEAR"])
            bad |= kind != "DAY"
            t.time_partitioning = bigquery.TimePartitioning(type_=kind, field=part[0])
        elif r < 0.08:
            t.range_partitioning = bigquery.RangePartitioning(range_=bigquery.PartitionRange(start=0, end=10, interval=1), field=subs[0][0].name)
            bad = True
        elif r < 0.12:
            t.time_partitioning = bigquery.TimePartitioning(type_="DAY")  # ingestion time: no field to name
            bad = True
        rest = [x[0].name for x in subs if x[0].name not in part]
        if rest and rng.random() < 0.5:
            clus = tuple(rng.sample(rest, rng.randint(1, min(4, len(rest)))))
            t.clustering_fields = clus
        if bad:
            return t, Reject, None
        spec = ("Collection", False, "pp.dd.tt", ("Struct", False, "anon", tuple((x[0].name, x[1]) for x in subs)), part, clus)
        return t, spec, cls.out(spec)


SYSTEMS = [Python, Python, Pydantic, Pydantic, Pyarrow, Pyarrow, BigQuery, BigQuery, Numpy, Pandas]


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, e


def outward(ctx, sys, spec, pool):
    t = build(spec)
    if describe(t) != spec:
        raise Violation(f"constructing {spec} gave {describe(t)}")
    hints = {"unrelated": 1}
    f, err = attempt(lambda: sys.ts.to_system(t, hints=hints))
    if hints != {"unrelated": 1}:
        raise Violation("conversion modified the caller's hints")
    try:
        want = sys.out(spec)
    except Reject:
        # a malformed foreign object that cannot be read back is a refusal too
        b, err2 = (None, err) if err else attempt(lambda: sys.ts.to_artigraph(f, hints={}))
        ctx.check(err or err2, f"{sys.key}: {spec} cannot be expressed but was converted", got=f, back=b)
        ctx.n[f"{sys.key}:rejected"] += 1
        ctx.seen((sys.key, "reject", spec))
        return
    except May:
        b, err2 = (None, err) if err else attempt(lambda: sys.ts.to_artigraph(f, hints={}))
        if not (err or err2):
            ctx.eq(describe(b), sys.back(spec), f"{sys.key}: round trip of {spec}")
        return
    if err:
        raise Violation(f"{sys.key}: refused the expressible type {spec}: {type(err).__name__}: {err}")
    got = sys.seen(f)
    got = sys.norm(got) if hasattr(sys, "norm") else got
    want = sys.norm(want) if hasattr(sys, "norm") else want
    ctx.check(got == want, f"{sys.key}: wrong conversion of {spec}", got=got, want=want)
    b, err = attempt(lambda: sys.ts.to_artigraph(f, hints={}))
    if err:
        raise Violation(f"{sys.key}: {spec} converted to {got} but not back: {type(err).__name__}: {err}")
    ctx.check(describe(b) == sys.back(spec), f"{sys.key}: wrong round trip of {spec}", got=describe(b), want=sys.back(spec))
    # a second trip adds no further loss, a fresh equal type converts identically
    spec2 = describe(b)
    f2 = sys.ts.to_system(build(spec2), hints={})
    b2 = sys.ts.to_artigraph(f2, hints={})
    ctx.check(describe(b2) == spec2 and b2 == b, f"{sys.key}: the second round trip of {spec} differs", got=describe(b2), want=spec2)
    f3 = sys.ts.to_system(build(spec), hints={})
    ctx.check((sys.norm(sys.seen(f3)) if hasattr(sys, "norm") else sys.seen(f3)) == want, f"{sys.key}: converting {spec} again differs")
    if describe(t) != spec:
        raise Violation("converting changed the type")
    ctx.n[f"{sys.key}:out"] += 1
    ctx.seen((sys.key, spec), {"system": sys.key, "type": repr(spec)[:200], "foreign": repr(got)[:200]} if ctx.n[f"{sys.key}:out"] == 5 else None)
    pool.append((sys, spec, want))


def contents(f):
    """All of a foreign object: conversion must leave it as it was."""
    if isinstance(f, bigquery.SchemaField | bigquery.Table):
        return repr(f.to_api_repr())
    if isinstance(f, np.ndarray):
        return (f.dtype, f.shape, f.strides, f.flags.writeable, f.tobytes() if f.dtype != object else repr(f))
    if isinstance(f, pd.Series):
        return (f.name, f.dtype, list(f.index), repr(list(f)))
    if isinstance(f, pd.DataFrame):
        return (list(f.columns), list(f.index), [contents(f[c]) for c in f.columns])
    return repr(f)


def inward(ctx, sys, rng):
    f, spec, want = sys.foreign(rng, 3)
    before, hints = contents(f), {"unrelated": 1}
    b, err = attempt(lambda: sys.ts.to_artigraph(f, hints=hints))
    ctx.check(contents(f) == before and hints == {"unrelated": 1}, f"{sys.key}: the conversion modified what it was given", before=before, after=contents(f), hints=hints)
    again, err2 = attempt(lambda: sys.ts.to_artigraph(f, hints={}))
    ctx.check((err is None) == (err2 is None) and (err is not None or again == b), f"{sys.key}: converting {f!r} again differs", first=b or err, second=again or err2)
    ctx.n["unmodified_sources"] += 1
    if spec is Reject:
        ctx.check(err is not None, f"{sys.key}: unsupported foreign type {f!r} was converted", got=b)
        ctx.n[f"{sys.key}:in_rejected"] += 1
        return
    if err:
        raise Violation(f"{sys.key}: refused the supported foreign type {f!r} ({spec}): {type(err).__name__}: {err}")
    ctx.check(describe(b) == spec, f"{sys.key}: wrong import of {f!r}", got=describe(b), want=spec)
    ctx.n[f"{sys.key}:in"] += 1
    ctx.seen((sys.key, "in", repr(f) if not hasattr(f, "dtypes") else spec, spec))
    if want is May or sys is Pandas and "Binary" in repr(spec):
        return
    f2 = sys.ts.to_system(b, hints={})
    got = sys.seen(f2)
    if hasattr(sys, "norm"):
        got, want = sys.norm(got), sys.norm(want)
    ctx.check(got == want, f"{sys.key}: {f!r} in and out is not equivalent", got=got, want=want)


_pool: list = []


def descriptions(ctx, rng):
    """BigQuery carries descriptions of plain and record fields."""
    d1, d2 = rng.choice([None, "x", "über"]), rng.choice([None, "y"])
    t = T.Struct(description=d1, fields={"a": T.Int64(description=d2, nullable=True), "b": T.Struct(description=d2, fields={"c": T.Time(precision="microsecond", description=d1)})})
    b = bigquery_type_system.to_artigraph(bigquery_type_system.to_system(t, hints={}), hints={})
    ctx.check(b == t, "bigquery: descriptions do not round trip", got=b, want=t)


def case(ctx, rng):
    for _ in range(6):
        sys = rng.choice(SYSTEMS)
        if rng.random() < 0.6:
            outward(ctx, sys, sys.gen(rng), _pool)
        else:
            inward(ctx, sys, rng)
    if rng.random() < 0.05:
        descriptions(ctx, rng)
    if len(_pool) > 20:
        # conversion is independent of everything converted since
        for sys, spec, want in rng.sample(_pool, 2):
            got = sys.seen(sys.ts.to_system(build(spec), hints={}))
            got = sys.norm(got) if hasattr(sys, "norm") else got
            ctx.check(got == want, f"{sys.key}: converting {spec} later gives something else", got=got, want=want)
        del _pool[:-300]
