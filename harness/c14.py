"""C14: generated producer definitions and wirings, well-formed or with exactly one defect.

Well-formed definitions must be accepted (as a class and, when expressible, through the decorator), be wired,
and run exactly as declared; a definition with one defect must be refused when it is made, naming the part.
"""
import json
import os
from typing import Literal, Annotated, Any, ClassVar, Optional, Union  # noqa: F401

from arti import Annotation, Artifact, Format, Graph, PartitionDependencies, PartitionKey, Producer, StoragePartitions, StoragePartitionSnapshots, producer  # noqa: F401
from arti import Storage, StoragePartition
from arti import types as T
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.internal.mappings import frozendict
from arti.partitions import Int64Field
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile, LocalFilePartition  # noqa: F401
from arti.types import Type, TypeSystem
from arti.versions import SemVer
from arti.versions import String as StringVersion
from arti.views import python as V

from core import Violation

PROP = "C14"
CASES = {"quick": 20000, "thorough": 200000}
SECONDS = {"quick": 100, "thorough": 1200}

ROWS = T.Collection(element=T.Struct(fields={"k": T.Int64(), "v": T.Int64()}), partition_by=("k",))
ROWS2 = T.Collection(element=T.Struct(fields={"j": T.Int64(), "v": T.Int64()}), partition_by=("j",))
TYPES = {"int": T.Int64(), "str": T.String(), "float": T.Float64(), "list": T.List(element=T.Int64()), "dict": T.Map(key=T.String(), value=T.Int64()), "rows": ROWS, "rows2": ROWS2}
HINTS = {"int": "int", "str": "str", "float": "float", "list": "list[int]", "dict": "dict[str, int]", "rows": "list[dict]", "rows2": "list[dict]"}
VIEWS = {"int": "V.Int", "str": "V.Str", "float": "V.Float", "list": "V.List", "dict": "V.Dict", "rows": "V.List", "rows2": "V.List"}
ALIEN = {"int": "str", "str": "int", "float": "str", "list": "dict[str, int]", "dict": "list[int]", "rows": "dict", "rows2": "list[int]"}


class AInt(Artifact):
    type: Type = TYPES["int"]


class AStr(Artifact):
    type: Type = TYPES["str"]


class AFloat(Artifact):
    type: Type = TYPES["float"]


class AList(Artifact):
    type: Type = TYPES["list"]


class ADict(Artifact):
    type: Type = TYPES["dict"]


class ARows(Artifact):
    type: Type = TYPES["rows"]


class ARows2(Artifact):
    type: Type = TYPES["rows2"]


class KeyTypes(Artifact):
    type: Type = T.Collection(element=T.Struct(fields={"k": T.Int32(), "v": T.Int64()}), partition_by=("k",))


class MoreKeys(Artifact):
    type: Type = T.Collection(element=T.Struct(fields={"k": T.Int64(), "j": T.Int64(), "v": T.Int64()}), partition_by=("k", "j"))


class Unkeyed(Artifact):
    type: Type = T.Collection(element=T.Struct(fields={"k": T.Int64(), "v": T.Int64()}))


class Unrelated(Artifact):
    pass


CLASSES = {"int": AInt, "str": AStr, "float": AFloat, "list": AList, "dict": ADict, "rows": ARows, "rows2": ARows2}
SUBS = {k: type(f"Sub{c.__name__}", (c,), {"__module__": __name__}) for k, c in CLASSES.items()}


class AlienFormat(Format):
    """A format without any reader or writer."""

    extension: str = ".alien"
    type_system: ClassVar[TypeSystem] = JSON.type_system


class AlienPartition(StoragePartition):
    key: str = ""

    def compute_content_fingerprint(self):
        raise AssertionError


class AlienStorage(Storage[AlienPartition]):
    """A storage without any reader or writer."""

    key: str = "{names}{input_fingerprint}"

    def discover_partitions(self, input_fingerprints=frozendict()):
        return ()


class Note(Annotation):
    text: str


LOG: list = []


def log(what, *args):
    LOG.append((what, *args))


class Small(int):
    pass


class Word(str):
    pass


class Real(float):
    pass


NS = dict(globals())
NAMES = ["a", "b", "c", "left", "x1", "data"]


class Spec:
    def __init__(self, rng):
        self.name = rng.choice(["P", "MyProducer", "step_1"])
        n = rng.choice([0, 1, 1, 2, 2, 3])
        self.inputs = []  # name, kind, field class src, build param hint or None, default?
        for name in rng.sample(NAMES, n):
            kind = rng.choice(["int", "str", "float", "list", "dict", "rows"])
            cls = CLASSES[kind].__name__
            opts = [(cls, HINTS[kind]), (cls, f"Annotated[{HINTS[kind]}, {cls}]"), (cls, f"Annotated[{HINTS[kind]}, {VIEWS[kind]}]"), (cls, f"Annotated[{HINTS[kind]}, TYPES[{kind!r}], {cls}]"), (cls, f"{HINTS[kind]!r}"), ("Artifact", f"Annotated[{HINTS[kind]}, TYPES[{kind!r}]]")]
            if kind != "rows":
                opts.append(("Artifact", HINTS[kind]))
                opts.append(("Artifact", f"Annotated[{HINTS[kind]}, 'words']"))
            field, hint = rng.choice(opts)
            self.inputs.append({"name": name, "kind": kind, "field": field, "hint": hint, "default": "", "in_build": True})
        m = rng.choice([1, 1, 2, 3])
        part = rng.random() < 0.3
        self.outputs = []
        for _ in range(m):
            kind = "rows" if part else rng.choice(["int", "str", "float", "list", "dict"])
            cls = CLASSES[kind].__name__
            opts = [f"Annotated[{HINTS[kind]}, {cls}]", f"Annotated[{HINTS[kind]}, {cls}, {VIEWS[kind]}]", f"Annotated[{HINTS[kind]}, TYPES[{kind!r}]]"]
            if kind != "rows":
                opts.append(HINTS[kind])
            self.outputs.append({"kind": kind, "hint": rng.choice(opts)})
        self.build_deco = rng.choice(["staticmethod", "classmethod"])
        self.has_build = True
        self.kwonly = rng.choice([None, 0, 1])
        self.extra_build_params = []
        self.ret = None
        self.map = None
        if part or rng.random() < 0.2:
            self.map = {"deco": rng.choice(["staticmethod", "classmethod"]), "params": [[i["name"], "StoragePartitions", ""] for i in self.inputs], "kwonly": rng.random() < 0.3}
            if self.inputs and rng.random() < 0.25:  # an input that is used by map only
                rng.choice(self.inputs)["in_build"] = False
        self.validate = None
        if rng.random() < 0.5:
            hints = [HINTS[o["kind"]] for o in self.outputs]
            style = rng.choice(["exact", "any", "vararg any", "vararg", "unhinted", "posonly", "object"])
            ps = [f"o{i}" for i in range(m)]
            if style == "exact":
                ps = [f"o{i}: {h}" for i, h in enumerate(hints)]
            elif style == "any":
                ps = [f"o{i}: Any" for i in range(m)]
            elif style == "object":
                ps = [f"o{i}: object" for i in range(m)]
            elif style == "vararg any":
                ps = ["*o: Any"]
            elif style == "vararg":
                ps = [f"*o: {hints[0]}"] if len(set(hints)) == 1 else ["*o"]
            elif style == "posonly":
                ps = [*ps, "/"]
            self.validate = {"deco": rng.choice(["staticmethod", "classmethod"]), "params": ps, "style": style}
        self.version = rng.choice([None, None, "SemVer(major=1, minor=2, patch=3)", "StringVersion(value='v7')"])
        self.annotated = rng.choice([None] * 6 + ["()", "(Note(text='n'),)"])
        self.deco_style = rng.choice(["name", "function", "reused"])

    def defs(self, owner):
        """Source of the functions; `owner` adds the cls parameter of classmethods."""

        def first(deco):
            return ["cls"] if owner and deco == "classmethod" else []

        bparams = [f"{i['name']}{': ' + i['hint'] if i['hint'] else ''}{i['default']}" for i in self.inputs if i["in_build"]]
        bparams += self.extra_build_params
        if self.kwonly is not None and len(bparams) > self.kwonly and not any(p.startswith(("*", "/")) for p in bparams):
            bparams.insert(self.kwonly, "*")
        names = [i["name"] for i in self.inputs if i["in_build"]]
        hints = [o["hint"] for o in self.outputs]
        ret = self.ret if self.ret is not None else " -> " + (hints[0] if len(hints) == 1 else f"tuple[{', '.join(hints)}]")
        build = f"def build({', '.join([*first(self.build_deco), *bparams])}){ret}:\n    log('build', {{{', '.join(f'{n!r}: {n}' for n in names)}}})\n    return RESULT()\n"
        mp = val = None
        if self.map:
            mparams = [f"{n}{': ' + h if h else ''}{d}" for n, h, d in self.map["params"]]
            if self.map["kwonly"] and mparams:
                mparams.insert(0, "*")
            mnames = [n for n, _, _ in self.map["params"]]
            mp = f"def map({', '.join([*first(self.map['deco']), *mparams])}) -> PartitionDependencies:\n    log('map', {{{', '.join(f'{n!r}: {n}' for n in mnames)}}})\n    return MAP({{{', '.join(f'{n!r}: {n}' for n in mnames)}}})\n"
        if self.validate:
            vp = self.validate["params"]
            args = "o" if vp and vp[0].startswith("*o") else "(" + "".join(p.split(":")[0].split("=")[0].strip() + ", " for p in vp if p not in ("/", "*")) + ")"
            val = f"def validate_outputs({', '.join([*first(self.validate['deco']), *vp])}):\n    log('validate', {args})\n    return True, 'fine'\n"
        return build, mp, val

    def as_class(self):
        build, mp, val = self.defs(True)
        body = [f"{i['name']}: {i['field']}{i.get('fdefault', '')}" for i in self.inputs]
        if self.version:
            body.append(f"version: Version = {self.version}")
        if self.annotated:
            body.append(f"annotations: tuple[Annotation, ...] = {self.annotated}")
        for deco, src in ((self.build_deco, build if self.has_build else None), (self.map and self.map["deco"], mp), (self.validate and self.validate["deco"], val)):
            if src:
                body.append((f"@{deco}\n" if deco else "") + src)
        lines = "\n".join(body).split("\n")
        return f"class {self.name}(Producer):\n" + "\n".join("    " + x for x in lines or ["pass"]) + ("\n    pass" if not body else "") + f"\nRES = {self.name}\n"

    def decorable(self):
        return self.has_build and all(i["in_build"] for i in self.inputs) and all(not (i["hint"].startswith("'")) and (i["field"] == "Artifact" or i["field"] in i["hint"]) for i in self.inputs)

    def as_decorator(self):
        build, mp, val = self.defs(False)
        src = ""
        kw = [f"name={self.name!r}"] if self.deco_style == "name" else []
        if mp:
            src += mp
            kw.append("map=map")
        if val:
            src += val
            kw.append("validate_outputs=validate_outputs")
        if self.version:
            kw.append(f"version={self.version}")
        if self.annotated:
            kw.append(f"annotations={self.annotated}")
        if self.deco_style == "name":
            return src + f"@producer({', '.join(kw)})\n" + build + "RES = build\n"
        named = lambda name: build.replace("def build(", f"def {name}(", 1)  # noqa: E731
        src += f"deco = producer({', '.join(kw)})\n"
        if self.deco_style == "reused":
            src += "@deco\n" + named("Other")
        return src + "@deco\n" + named(self.name) + f"RES = {self.name}\n"


# ------------------------------------------------------------------ defects: change the spec, return words the error must contain
def needs_build_input(s, rng):
    xs = [i for i in s.inputs if i["in_build"]]
    return rng.choice(xs) if xs else None


def d_no_build(s, rng):
    s.has_build = False
    return ["build"]


def d_plain_build(s, rng):
    s.build_deco = ""
    return ["build"]


def d_param_no_hint(s, rng):
    if (i := needs_build_input(s, rng)) is None:
        return None
    i["hint"] = ""
    return ["build", i["name"]]


def d_param_default(s, rng):
    if (i := needs_build_input(s, rng)) is None:
        return None
    i["default"] = " = None"
    s.kwonly = 0
    return ["build", i["name"]]


def d_param_posonly(s, rng):
    xs = [i for i in s.inputs if i["in_build"]]
    if not xs:
        return None
    s.kwonly = None
    xs[0]["hint"] += ", /" if len(xs) == 1 else ""
    if len(xs) > 1:
        s.extra_build_params = ["/"]
    return ["build", xs[0]["name"]]


def d_param_var(s, rng):
    if (i := needs_build_input(s, rng)) is None or len([x for x in s.inputs if x["in_build"]]) != 1:
        return None
    star = rng.choice(["*", "**"])
    s.kwonly = None
    i["in_build"], i["var"] = False, True
    s.extra_build_params = [f"{star}{i['name']}: {i['hint']}"]
    return ["build", i["name"]]


def d_unknown_param(s, rng):
    s.extra_build_params = ["mystery: int"]
    return ["build", "mystery"]


def d_unused_field(s, rng):
    if s.map and len(s.inputs) and rng.random() < 0.5:
        i = rng.choice(s.inputs)
        i["in_build"] = False
        s.map["params"] = [p for p in s.map["params"] if p[0] != i["name"]]
        return [i["name"]]
    s.inputs.append({"name": "spare", "kind": "int", "field": rng.choice(["AInt", "Artifact"]), "hint": "int", "default": "", "in_build": False})
    return ["spare"]


def d_optional_field(s, rng):
    if not s.inputs:
        return None
    i = rng.choice(s.inputs)
    i["field"] = rng.choice(["Optional[{}]", "{} | None", "Union[None, {}]"]).format(i["field"])
    return [i["name"]]


def d_default_field(s, rng):
    if not s.inputs:
        return None
    i = s.inputs[-1]
    i["fdefault"] = rng.choice([" = None", f" = {i['field']}()" if i["field"] != "Artifact" else " = AInt()"])
    return [i["name"]]


def d_not_artifact_field(s, rng):
    if not s.inputs:
        return None
    i = rng.choice(s.inputs)
    i["field"] = rng.choice(["int", "str", "list[AInt]", "Format", "dict", "Producer", "Any"])
    return [i["name"]]


def d_wrong_param_hint(s, rng):
    xs = [i for i in s.inputs if i["in_build"] and i["field"] != "Artifact"]
    if not xs:
        return None
    i = rng.choice(xs)
    i["hint"] = rng.choice([ALIEN[i["kind"]], f"Annotated[{ALIEN[i['kind']]}, {i['field']}]"])
    return ["build", i["name"]]


def d_unknown_view(s, rng):
    if (i := needs_build_input(s, rng)) is None:
        return None
    i["hint"] = rng.choice(["object", "set[int]", "Annotated[bytes, 'x']", "Unrelated"])
    return ["build", i["name"]]


def d_other_artifact_class(s, rng):
    if (i := needs_build_input(s, rng)) is None:
        return None
    other = "Unrelated" if i["field"] != "Artifact" else CLASSES[i["kind"]].__name__
    i["hint"] = f"Annotated[{HINTS[i['kind']]}, TYPES[{i['kind']!r}], {other}]"
    return ["build", i["name"]]


def d_type_conflict(s, rng):
    xs = [i for i in s.inputs if i["in_build"] and i["field"] != "Artifact"]
    if not xs:
        return None
    i = rng.choice(xs)
    i["hint"] = f"Annotated[{HINTS[i['kind']]}, {near_type(i['kind'], rng)}, {i['field']}]"
    return ["build", i["name"]]


def near_type(kind, rng):
    """Another type than the kind's, down to differing in one attribute only."""
    return rng.choice(["T.Int32()", f"TYPES[{kind!r}].model_copy(update={{'nullable': True}})"])


def d_no_return(s, rng):
    s.ret = rng.choice(["", " -> None"])
    return ["build"]


def d_bad_return(s, rng):
    i = rng.randrange(len(s.outputs))
    o = s.outputs[i]
    cls = CLASSES[o["kind"]].__name__
    o["hint"] = rng.choice([f"Annotated[{ALIEN[o['kind']]}, {cls}]", f"Annotated[{HINTS[o['kind']]}, {near_type(o['kind'], rng)}, {cls}]", f"Annotated[object, {cls}]", f"Annotated[{HINTS[o['kind']]}, {cls}, Unrelated]", f"Annotated[{HINTS[o['kind']]}, {cls}, V.Int, V.Str]"])
    s.validate = None
    return ["build", ["1st", "2nd", "3rd"][i]]


def d_mixed_partitioning(s, rng):
    other = ["Annotated[list[dict], ARows2]", "Annotated[list[dict], KeyTypes]", "Annotated[list[dict], MoreKeys]", "Annotated[list[dict], Unkeyed]"]
    if s.outputs[0]["kind"] == "rows" or rng.random() < 0.5:
        s.outputs.append({"kind": "rows2", "hint": rng.choice(other if s.outputs[0]["kind"] == "rows" else other[:3])})
    else:
        s.outputs = [{"kind": "rows", "hint": "Annotated[list[dict], ARows]"}, {"kind": "rows2", "hint": rng.choice(other)}]
        if s.map is None:
            s.map = {"deco": "staticmethod", "params": [[i["name"], "StoragePartitions", ""] for i in s.inputs], "kwonly": False}
    if rng.random() < 0.5:
        s.outputs.reverse()
    s.validate = None
    return ["build"]


def d_no_map(s, rng):
    if s.outputs[0]["kind"] != "rows":
        return None
    s.map = None
    for i in s.inputs:
        i["in_build"] = True
    return ["map"]


def d_map_param(s, rng):
    if not s.map:
        return None
    how = rng.choice(["plain", "unknown", "hint", "nohint", "default", "posonly"])
    if how == "plain":
        s.map["deco"] = ""
        return ["map"]
    if how == "unknown":
        s.map["params"].append(["mystery", "StoragePartitions", ""])
        return ["map", "mystery"]
    if not s.map["params"]:
        return None
    p = rng.choice(s.map["params"])
    if how == "hint":
        p[1] = rng.choice(["list", "Artifact", "StoragePartition", "tuple", "StoragePartitionSnapshots", "Any", "tuple[LocalFilePartition, ...]", "tuple[StoragePartition]", "tuple[StoragePartition, StoragePartition]", "list[StoragePartition]", "tuple[Any, ...]", "StoragePartitions | None"])
    elif how == "nohint":
        p[1] = ""
    elif how == "default":
        s.map["kwonly"] = True
        p[2] = " = ()"
    else:
        s.map["kwonly"] = False
        p = s.map["params"][0]
        p[2] = ", /"
    return ["map", p[0]]


def d_validate(s, rng):
    m = len(s.outputs)
    how = rng.choice(["few", "many", "hint", "kwonly", "default", "vararg"])
    deco = rng.choice(["staticmethod", "classmethod"])
    ps = [f"o{i}" for i in range(m)]
    words = ["validate_output"]
    i = rng.randrange(m)
    if how == "few":
        if m == 1:
            ps = []
        else:
            ps = ps[:-1]
    elif how == "many":
        ps.append("more")
    elif how == "hint":
        # (Accepting only some of what the step returns is not enough.)
        narrow = {"int": ["bool", "Small", "Literal[1]"], "str": ["Word", "Literal['a']"], "float": ["Real"]}.get(s.outputs[i]["kind"], [])
        ps[i] += f": {rng.choice(['str' if s.outputs[i]['kind'] != 'str' else 'int', *narrow])}"
        words.append(f"o{i}")
    elif how == "kwonly":
        ps.insert(i, "*")
        words.append(f"o{i}")
    elif how == "default":
        ps = [*ps[:-1], ps[-1] + "=None"]
        words.append(f"o{m - 1}")
    else:
        ps = [f"*o: {'str' if s.outputs[i]['kind'] != 'str' else 'int'}"]
        words.append("o")
    s.validate = {"deco": deco, "params": ps, "style": how}
    return words


DEFECTS = [v for k, v in list(globals().items()) if k.startswith("d_")]


def define(src, result=None, mapping=None):
    ns = {**NS, "__name__": __name__, "log": log, "RESULT": lambda: result() if result else None, "MAP": lambda parts: mapping(parts) if mapping else {}, "StringVersion": StringVersion, "SemVer": SemVer, "Version": __import__("arti").Version}
    exec(compile(src, "<definition>", "exec"), ns)
    return ns["RES"]


# ------------------------------------------------------------------ values
def value(rng, kind, key=None):
    if kind == "int":
        return rng.randrange(1000)
    if kind == "str":
        return f"s{rng.randrange(1000)}"
    if kind == "float":
        return rng.randrange(1000) / 8
    if kind == "list":
        return [rng.randrange(9) for _ in range(rng.randrange(3))]
    if kind == "dict":
        return {f"k{i}": rng.randrange(9) for i in range(rng.randrange(3))}
    return [{"k": key, "v": rng.randrange(99)} for _ in range(rng.choice([1, 2]))]


def raw(rng, spec, root):
    """A raw artifact for an input, and its partition values."""
    kind = spec["kind"]
    cls = SUBS[kind] if rng.random() < 0.3 else CLASSES[kind] if spec["field"] != "Artifact" or rng.random() < 0.5 else None
    kw = {} if cls is not None else {"type": TYPES[kind]}
    if kind == "rows":
        d = root / spec["name"]
        os.makedirs(d)
        vals = {k: value(rng, "rows", k) for k in rng.sample(range(5), rng.choice([1, 2, 3]))}
        for k, rows in vals.items():
            (d / f"{k}.json").write_text(json.dumps(rows))
        return (cls or Artifact)(format=JSON(), storage=LocalFile(path=f"{d}/{{k.value}}.json"), **kw), vals
    v = value(rng, kind)
    return (cls or Artifact)(format=JSON(), storage=StringLiteral(value=json.dumps(v)), **kw), {None: v}


def accepted(ctx, rng, s):
    root = ctx.tmpdir()
    vals, arts = {}, {}
    for i in s.inputs:
        arts[i["name"]], vals[i["name"]] = raw(rng, i, root)
    part = s.outputs[0]["kind"] == "rows"
    # mapped keys: those of a partitioned input if there is one, else two fixed ones
    rows_inputs = [i["name"] for i in s.inputs if i["kind"] == "rows"]
    out_keys = (sorted(vals[rows_inputs[0]]) if rows_inputs else [1, 2]) if part else [None]
    results = []

    def result():
        k = LOG_KEYS[len(results) % len(LOG_KEYS)] if part else None
        r = tuple(value(rng, o["kind"], k) for o in s.outputs)
        results.append(r)
        return r if len(r) > 1 else r[0]

    build_names = [i["name"] for i in s.inputs if i["in_build"]]

    def mapping(parts):
        deps = {}
        for k in out_keys:
            deps[PartitionKey() if k is None else PartitionKey(k=Int64Field(value=k))] = frozendict({n: tuple(parts[n]) for n in build_names})
        return PartitionDependencies(deps)

    LOG_KEYS = out_keys
    forms = [("class", s.as_class())]
    if s.decorable():
        forms.append(("decorator", s.as_decorator()))
    kind_of = {i["name"]: i["kind"] for i in s.inputs}
    for form, src in forms:
        results.clear()
        try:
            P = define(src, result, mapping)
        except Exception as e:
            raise Violation(f"a well-formed definition is refused ({form}): {type(e).__name__}: {e}\n{src}") from e
        ctx.n[f"accepted_{form}"] += 1
        ctx.check(isinstance(P, type) and issubclass(P, Producer) and P.__name__ == s.name, "not a Producer class", src=src)
        p = P(**arts)
        ctx.check(p.inputs == arts, "inputs", got=p.inputs)
        want_version = {None: SemVer(major=0, minor=0, patch=1), "SemVer(major=1, minor=2, patch=3)": SemVer(major=1, minor=2, patch=3), "StringVersion(value='v7')": StringVersion(value="v7")}[s.version]
        ctx.eq(p.version, want_version, "version")
        ctx.eq(p.annotations, (Note(text="n"),) if s.annotated not in (None, "()") else (), "annotations")
        bad_wiring(ctx, rng, s, P, arts)
        # default outputs
        outs = p.out()
        outs = outs if isinstance(outs, tuple) else (outs,)
        ctx.check(len(outs) == len(s.outputs) and list(p) == list(outs), "number of outputs")
        for j, (o, spec) in enumerate(zip(outs, s.outputs)):
            want_cls = CLASSES[spec["kind"]] if CLASSES[spec["kind"]].__name__ in spec["hint"] else Artifact
            ctx.check(type(o) is want_cls and o.type == TYPES[spec["kind"]] and o.producer_output.producer == p and o.producer_output.position == j, f"default output {j}", got=repr(o))
        # explicit outputs: any artifact of the declared class (or below), each position its own
        given = [(SUBS[spec["kind"]] if rng.random() < 0.5 else CLASSES[spec["kind"]])(format=JSON(), storage=LocalFile(path=f"{root}/out-{form}/{{names}}/{{partition_key_spec}}/{{input_fingerprint}}.json") if rng.random() < 0.5 else StringLiteral()) for spec in s.outputs]
        outs = p.out(*given)
        outs = outs if isinstance(outs, tuple) else (outs,)
        bad_outputs(ctx, rng, s, p, given, outs)
        for j, (a, o) in enumerate(zip(given, outs)):
            ctx.check(type(o) is type(a) and o.type == a.type and o.storage == a.storage and o.format == a.format and o.producer_output.position == j and a.producer_output is None, "explicit output")
        # run it
        with Graph(name="g", backend=MemoryBackend()) as g:
            for n, a in arts.items():
                g.artifacts[f"in_{n}"] = a
            wired = P(**{n: g.artifacts[f"in_{n}"] for n in arts})
            ctx.check(all(a == b for a, b in zip(wired.inputs.values(), (g.artifacts[f"in_{n}"] for n in wired.inputs))), "wired inputs")
            outs = wired.out(*given)
            for j, o in enumerate(outs if isinstance(outs, tuple) else (outs,)):
                g.artifacts[f"out_{j}"] = o
        if s.validate and form == "class":
            pass
        LOG.clear()
        if not all(vals.values()):
            continue
        snap = g.snapshot()
        try:
            snap.build()
        except Exception as e:
            raise Violation(f"a well-formed producer fails to build ({form}): {type(e).__name__}: {e}\n{src}") from e
        builds = [x for x in LOG if x[0] == "build"]
        ctx.check(len(builds) == len(out_keys), "number of step executions", got=len(builds), want=len(out_keys))
        for _, args in builds:
            ctx.check(set(args) == set(build_names), "step arguments", got=sorted(args))
            for n, got in args.items():
                if kind_of[n] == "rows":
                    norm = lambda rows: sorted(map(repr, rows))  # noqa: E731
                    ctx.eq(norm(got), norm(r for rows in vals[n].values() for r in rows), f"argument {n}")
                else:
                    ctx.eq(got, vals[n][None], f"argument {n}")
        maps = [x for x in LOG if x[0] == "map"]
        ctx.check(len(maps) == (1 if s.map else 0), "number of map executions", got=len(maps))
        for _, parts in maps:
            for n, ps in parts.items():
                got = sorted(str(x.partition_key) for x in ps)
                want = sorted(str(PartitionKey(k=Int64Field(value=k)) if k is not None else PartitionKey()) for k in vals[n])
                ctx.eq(got, want, f"partitions of {n} given to map")
        checks = [x for x in LOG if x[0] == "validate"]
        ctx.check(len(checks) == (len(out_keys) if s.validate else 0), "number of output validations", got=len(checks))
        for c, r in zip(checks, results):
            ctx.eq(tuple(c[1]), r, "validated outputs")
        for j, spec in enumerate(s.outputs):
            got = snap.read(g.artifacts[f"out_{j}"], annotation={"int": int, "str": str, "float": float, "list": list, "dict": dict, "rows": list}[spec["kind"]])
            if part:
                ctx.eq(sorted(map(repr, got)), sorted(repr(x) for r in results for x in r[j]), f"output {j}")
            else:
                ctx.eq(got, results[0][j], f"output {j}")
        ctx.n[f"ran_{form}"] += 1
    ctx.seen(("ok", tuple((i["kind"], i["field"] == "Artifact", i["hint"], i["in_build"]) for i in s.inputs), tuple(o["hint"] for o in s.outputs), bool(s.map), s.validate and s.validate["style"], len(forms)), {"accepted": forms[0][1]} if len(ctx.samples) < 2 else None)
    ctx.rmdir(root)


REFUSED = (ValueError, TypeError)


def bad_wiring(ctx, rng, s, P, arts):
    if not arts:
        ctx.raises(REFUSED, lambda: P(other=AInt()), "an unknown input")
        return
    n = rng.choice(list(arts))
    spec = next(i for i in s.inputs if i["name"] == n)
    others = {k: v for k, v in arts.items() if k != n}
    ctx.raises(REFUSED, lambda: P(**others), f"missing input {n}")
    ctx.raises(REFUSED, lambda: P(**arts, other=AInt()), "an unknown input")
    ctx.raises(REFUSED, lambda: P(**others, **{n: rng.choice([5, None, "x", AInt, JSON(), [arts[n]]])}), f"input {n} is not an artifact")
    ctx.n["bad_wirings"] += 3
    if spec["field"] != "Artifact":
        wrong = rng.choice([Unrelated(type=TYPES[spec["kind"]], format=JSON(), storage=arts[n].storage.model_copy() if spec["kind"] == "rows" else StringLiteral(value="1")), CLASSES[rng.choice([k for k in CLASSES if k != spec["kind"]])](format=JSON())])
        ctx.raises(REFUSED, lambda: P(**others, **{n: wrong}), f"input {n} of another artifact class")
        ctx.n["bad_wirings"] += 1
    if spec["in_build"]:
        for what, make in (
            ("type", lambda: (Artifact if spec["field"] == "Artifact" else CLASSES[spec["kind"]])(type=rng.choice([*[t for k, t in TYPES.items() if k != spec["kind"]], *[TYPES[spec["kind"]].model_copy(update={"nullable": True})] * 3]), format=JSON(), storage=LocalFile())),
            ("format", lambda: arts[n].model_copy(update={"format": AlienFormat()})),
            ("storage", lambda: arts[n].model_copy(update={"storage": AlienStorage()})),
        ):
            ctx.raises(REFUSED, lambda: P(**others, **{n: make()}), f"input {n} with another {what} than the step can read")
            ctx.n["bad_wirings"] += 1
    elif rng.random() < 0.5:  # not read by the step: any format is fine
        P(**others, **{n: arts[n].model_copy(update={"format": AlienFormat()})})


def bad_outputs(ctx, rng, s, p, given, outs):
    j = rng.randrange(len(given))
    kind = s.outputs[j]["kind"]
    declared = CLASSES[kind].__name__ in s.outputs[j]["hint"]

    def sub(x):
        return [*given[:j], x, *given[j + 1 :]]

    tries = [
        ("too many outputs", lambda: p.out(*given, given[0])),
        ("an output that is not an artifact", lambda: p.out(*sub(5))),
        ("another type", lambda: p.out(*sub(Artifact(type=rng.choice([TYPES["str" if kind != "str" else "int"], TYPES[kind].model_copy(update={"nullable": True})]), format=JSON(), storage=StringLiteral())))),
        ("another format", lambda: p.out(*sub(given[j].model_copy(update={"format": AlienFormat()})))),
        ("another storage", lambda: p.out(*sub(given[j].model_copy(update={"storage": AlienStorage()})))),
        ("an already produced artifact", lambda: p.out(*sub(outs[j]))),
    ]
    if len(given) > 1:
        tries.append(("too few outputs", lambda: p.out(*given[:-1])))
        if len({o["kind"] for o in s.outputs}) == len(s.outputs) and len(given) > 1:
            tries.append(("outputs in another order", lambda: p.out(*reversed(given)) if s.outputs[0]["kind"] != s.outputs[-1]["kind"] else p.out()[9]))
    if declared:
        tries.append(("another artifact class", lambda: p.out(*sub(Unrelated(type=TYPES[kind], format=JSON(), storage=StringLiteral())))))
    for what, fn in tries:
        ctx.raises(REFUSED, fn, f"output wiring with {what}")
        ctx.n["bad_outputs"] += 1


def refused(ctx, rng, s, defect):
    words = defect(s, rng)
    if words is None:
        return accepted(ctx, rng, s)
    forms = [("class", s.as_class())]
    if defect in (d_wrong_param_hint, d_type_conflict, d_unknown_view, d_bad_return, d_mixed_partitioning, d_no_map, d_map_param, d_validate, d_no_return) and s.decorable():
        if s.deco_style == "reused":  # the error would name the first function
            s.deco_style = "function"
        forms.append(("decorator", s.as_decorator()))
    for form, src in forms:
        if form == "decorator" and defect is d_map_param and 'def map' in src and s.map["deco"] == "":
            continue  # the decorator makes it a static method
        try:
            define(src)
        except (ValueError, TypeError) as e:
            msg = str(e)
            ctx.check(s.name in msg, f"the error does not name the producer ({defect.__name__})", message=msg, src=src)
            for w in words:
                if form == "class" or w in ("map", "build", "validate_output"):
                    if form == "decorator" and w == "build":
                        continue
                    ctx.check(w in msg, f"the error does not name {w!r} ({defect.__name__})", message=msg, src=src)
        except Exception as e:
            raise Violation(f"{defect.__name__}: {type(e).__name__} instead of a definition error: {e}\n{src}") from e
        else:
            raise Violation(f"an ill-formed definition is accepted ({defect.__name__}, {form}):\n{src}")
        ctx.n[f"refused_{defect.__name__[2:]}"] += 1
    ctx.seen((defect.__name__, tuple((i["kind"], i["hint"]) for i in s.inputs), tuple(o["hint"] for o in s.outputs), s.validate and s.validate["style"]), {"refused": forms[0][1]} if len(ctx.samples) < 4 else None)


def case(ctx, rng):
    s = Spec(rng)
    if rng.random() < 0.45:
        accepted(ctx, rng, s)
    else:
        refused(ctx, rng, s, rng.choice(DEFECTS))
