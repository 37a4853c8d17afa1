"""C20: lenient_issubclass against an independent relation over a term language of hints."""
import collections.abc as cabc
import datetime
import typing
from typing import Annotated, Any, Literal, Optional, TypedDict, TypeVar, Union

from arti import Type
from arti.internal.type_hints import (
    NoneType,
    get_item_from_annotated,
    is_optional_hint,
    is_union_hint,
    lenient_issubclass,
)
from arti.types import Int64, String

PROP = "C20"
CASES = {"quick": 60000, "thorough": 100000}
SECONDS = {"quick": 100, "thorough": 600}


class A: ...
class B(A): ...
class C(A): ...
class D(B, C): ...
class E: ...
class MyList(list): ...
class MyTuple(tuple): ...
class MyDict(dict): ...
class Meta(type): ...
class WithMeta(metaclass=Meta): ...
class TD(TypedDict):
    a: int


CLASSES = [object, int, bool, str, float, bytes, A, B, C, D, E, datetime.date, datetime.datetime, NoneType, list, tuple, dict, set, frozenset, MyList, MyTuple, MyDict, cabc.Sequence, cabc.Mapping, cabc.Iterable, cabc.Collection, cabc.Set, cabc.MutableSequence, cabc.MutableMapping, type, Meta, WithMeta, Exception]
ONE = [list, set, frozenset, cabc.Sequence, cabc.Iterable, cabc.Collection, cabc.Set, cabc.MutableSequence, MyList, type]
TWO = [dict, cabc.Mapping, cabc.MutableMapping, MyDict]
TUP = [tuple, tuple, MyTuple]
TYPING = {list: typing.List, set: typing.Set, frozenset: typing.FrozenSet, dict: typing.Dict, cabc.Sequence: typing.Sequence, cabc.Mapping: typing.Mapping, cabc.Iterable: typing.Iterable, cabc.Collection: typing.Collection, tuple: typing.Tuple, type: typing.Type}


# ---- terms
def gen(rng, depth, *, sup, arg=False):
    k = rng.random()
    if depth <= 0 or k < 0.3:
        return ("cls", rng.choice(CLASSES))
    if k < 0.5:
        return ("gen", o := rng.choice(ONE), (gen(rng, depth - 1, sup=sup, arg=True),))
    if k < 0.6:
        return ("gen", rng.choice(TWO), (gen(rng, depth - 1, sup=sup, arg=True), gen(rng, depth - 1, sup=sup, arg=True)))
    if k < 0.68:
        return ("tup", rng.choice(TUP), tuple(gen(rng, depth - 1, sup=sup, arg=True) for _ in range(rng.choice([1, 2, 2, 3]))))
    if k < 0.74:
        return ("vtup", rng.choice(TUP), gen(rng, depth - 1, sup=sup, arg=True))
    if k < 0.8:
        return ("ann", gen(rng, depth - 1, sup=sup, arg=arg), rng.choice([5, "m", int]))
    if k < 0.86:
        # bounds: no unions below a bounded variable that is a candidate
        return ("var", None if rng.random() < 0.3 else gen(rng, depth - 1, sup=sup, arg=arg))
    if k < 0.9:
        return ("any",)
    if sup or arg:
        return ("union", tuple(gen(rng, depth - 1, sup=sup, arg=arg) for _ in range(rng.choice([2, 2, 3]))))
    return ("cls", rng.choice(CLASSES))


def mutate_up(rng, t):
    """A (usually) supertype of term t."""
    k = t[0]
    r = rng.random()
    if r < 0.12:
        return ("any",)
    if r < 0.25:
        return ("union", tuple(rng.sample([t, ("cls", rng.choice(CLASSES)), ("cls", NoneType)], 3)))
    if r < 0.35:
        return ("ann", mutate_up(rng, t), 7)
    if r < 0.45:
        return ("var", mutate_up(rng, t))
    if k == "cls":
        return ("cls", rng.choice(t[1].__mro__)) if rng.random() < 0.8 else t
    if k in ("gen", "tup"):
        if rng.random() < 0.2:
            return ("cls", rng.choice(t[1].__mro__[:-1] or [object]))
        o = t[1]
        sups = [x for x in ONE + TWO + TUP if issubclass(o, x) and (x in TWO) == (o in TWO) and (x in TUP) == (o in TUP)] or [o]
        return (k, rng.choice(sups), tuple(mutate_up(rng, x) if rng.random() < 0.5 else x for x in t[2]))
    if k == "vtup":
        c = rng.random()
        e = mutate_up(rng, t[2]) if rng.random() < 0.5 else t[2]
        return ("gen", rng.choice([cabc.Sequence, cabc.Iterable, cabc.Collection]), (e,)) if c < 0.4 else ("vtup", tuple if rng.random() < 0.5 else t[1], e)
    if k in ("ann", "var") and t[1] is not None:
        return mutate_up(rng, t[1])
    return t


def hint(rng, t, side):
    k = t[0]
    if k == "cls":
        return t[1]
    if k == "gen":
        args = tuple(hint(rng, x, side) for x in t[2])
        o = TYPING[t[1]] if side == "sup" and t[1] in TYPING and rng.random() < 0.3 else t[1]
        return o[args[0] if len(args) == 1 else args]
    if k == "tup":
        args = tuple(hint(rng, x, side) for x in t[2])
        return (typing.Tuple if side == "sup" and t[1] is tuple and rng.random() < 0.3 else t[1])[args]
    if k == "vtup":
        return t[1][hint(rng, t[2], side), ...]
    if k == "ann":
        return Annotated[hint(rng, t[1], side), t[2]]
    if k == "var":
        return TypeVar("V") if t[1] is None else TypeVar("V", bound=hint(rng, t[1], side))
    if k == "any":
        return Any
    members = [hint(rng, x, side) for x in t[1]]
    if rng.random() < 0.6:  # `X | Y` makes a fresh object every time; `Union[X, Y]` is cached
        try:
            out = members[0]
            for m in members[1:]:
                out = out | m
            return out
        except TypeError:
            pass
    return Union[tuple(members)]


def norm(t):
    while t[0] in ("ann", "var"):
        t = ("any",) if t[1] is None else t[1]
    return t


def members(t):
    """Flattened union members."""
    t = norm(t)
    if t[0] == "union":
        return [m for x in t[1] for m in members(x)]
    return [t]


def deep(t):
    """Canonical meaning of a term (unions as sets)."""
    t = norm(t)
    if t[0] == "union":
        ms = frozenset(deep(m) for m in members(t))
        return next(iter(ms)) if len(ms) == 1 else ("union", ms)
    if t[0] in ("gen", "tup"):
        return (t[0], t[1], tuple(deep(x) for x in t[2]))
    if t[0] == "vtup":
        return (t[0], t[1], deep(t[2]))
    return t


def all3(xs):
    xs = list(xs)
    return False if False in xs else None if None in xs else True


def any3(xs):
    xs = list(xs)
    return True if True in xs else None if None in xs else False


def ref(k, c, top=True):
    """True / False / None (no claim)."""
    wrapped_union = k[0] in ("ann", "var") and norm(k)[0] == "union"
    k, c = norm(k), norm(c)
    if k[0] == "union":
        ms = members(k)
        if len({deep(m) for m in ms}) == 1 and not wrapped(k):
            return ref(ms[0], c, top)
        sem = all3(ref(m, c, top) for m in ms)
        return False if sem is False and c[0] != "any" else None
    if c[0] == "any":
        return True
    if c[0] == "union":
        return any3(ref(k, m, top) for m in members(c))
    if k[0] == "any":
        return False
    ko = k[1]
    co = c[1]
    if c[0] == "cls":
        return issubclass(ko, co)
    if k[0] == "cls":
        return False  # an unparametrised class is not below a parametrised one
    if not issubclass(ko, co):
        return False
    ktup, ctup = k[0] in ("tup", "vtup"), c[0] in ("tup", "vtup")
    kargs = [k[2]] if k[0] == "vtup" else list(k[2])
    cargs = [c[2]] if c[0] == "vtup" else list(c[2])
    if ktup and not ctup:
        if len(cargs) != 1:
            return None
        return all3(arg3(x, cargs[0]) for x in kargs)
    if ktup and ctup:
        if c[0] == "vtup":
            return all3(arg3(x, cargs[0]) for x in kargs)
        if k[0] == "vtup":
            return False
    if len(kargs) != len(cargs):
        return None if not (ktup and ctup) else False
    return all3(arg3(x, y) for x, y in zip(kargs, cargs, strict=True))


SAME = [False]  # candidate and supertype are spelled identically


def arg3(k, c):
    return True if SAME[0] and plain_equal(k, c) else ref(k, c, False)


def plain_equal(k, c):
    """Equal unions spelled without wrappers anywhere (wrapped ones: no claim)."""
    return norm(k)[0] == "union" and k[0] == "union" and c[0] == "union" and k == c and not wrapped(k)


def wrapped(t):
    if not isinstance(t, tuple):
        return False
    return (len(t) > 0 and t[0] in ("var", "ann")) or any(wrapped(x) for x in t)


NON_TYPES = [5, "int", 2.5, None, [int], (int,), {}, lambda: 0, Literal[5], int | None, Optional[str], Union[int, str], print, cabc, ..., typing.ClassVar[int], typing.Callable, object(), {int}, b"x", True]
CHECKS = [int, object, Any, list[int], tuple[int, ...], int | str, Optional[int], Annotated[int, 5], Annotated[int | None, 5], TypeVar("V"), TypeVar("V", bound=int), dict[str, int], cabc.Mapping[str, int], None, NoneType, (int, str), tuple, type]


def ask(ctx, k, c):
    ctx.n["questions"] += 1
    try:
        r = lenient_issubclass(k, c)
    except Exception as e:
        ctx.check(False, f"subtype question raised {type(e).__name__}: {e}", candidate=k, of=c)
    ctx.check(isinstance(r, bool), "subtype answer is not a bool", candidate=k, of=c, got=r)
    return r


def subcase(ctx, rng):
    kt = gen(rng, rng.choice([1, 2, 3]), sup=False)
    k = hint(rng, kt, "sub")
    ct = mutate_up(rng, kt) if rng.random() < 0.6 else gen(rng, rng.choice([1, 2, 3]), sup=True)
    if rng.random() < 0.15:
        ct = kt
    if rng.random() < 0.08:  # fixed-length tuples: one longer, shorter or permuted
        inner = tuple(gen(rng, 1, sup=False, arg=True) for _ in range(rng.choice([1, 2, 3])))
        kt = ("tup", rng.choice(TUP), inner)
        more = rng.choice([inner[:-1], (*inner, gen(rng, 1, sup=True, arg=True)), (*inner, inner[-1]), inner[::-1]]) or inner
        ct = ("tup", tuple, tuple(mutate_up(rng, x) if rng.random() < 0.3 else x for x in more))
        if rng.random() < 0.3:
            o = rng.choice([list, cabc.Sequence])
            kt, ct = ("gen", list, (kt,)), ("gen", o, (ct,))
        k = hint(rng, kt, "sub")
    c = hint(rng, ct, "sup")
    want = ref(kt, ct)
    got = ask(ctx, k, c)
    if want is not None:
        ctx.check(got == want, f"subtype answer {got}, reference {want}", candidate=k, of=c)
        ctx.n["decided_true" if want else "decided_false"] += 1
        ctx.seen(("pair", deep(kt)[0], deep(ct)[0], kt[0], ct[0], want, str(k)[:60], str(c)[:60]), {"candidate": str(k), "of": str(c), "answer": got})
    # reflexive
    if norm(kt)[0] != "union":
        ctx.check(ask(ctx, k, k), "not reflexive", hint=k)
        ctx.n["reflexive"] += 1
        SAME[0] = True
        w = ref(kt, kt)
        SAME[0] = False
        if w:
            ctx.check(ask(ctx, k, hint(rng, kt, "sub")), "not reflexive for an equal hint", hint=k)
    # tuples of types are alternatives
    other = ("cls", rng.choice(CLASSES))
    w2 = any3([want, ref(kt, other)])
    if w2 is not None:
        ctx.check(ask(ctx, k, (hint(rng, other, "sup"), c)) == w2, "tuple of alternatives", candidate=k)
    # transitive (middle terms without unions: unions are supertypes only)
    m1 = mutate_up(rng, kt)
    m2 = mutate_up(rng, m1)
    if "union" not in str(m1):
        hm, h2 = hint(rng, m1, "sub"), hint(rng, m2, "sup")
        if ask(ctx, k, hm) and ask(ctx, hm, h2):
            if ref(kt, m2) is not None:
                ctx.check(ask(ctx, k, h2), "not transitive", chain=(k, hm, h2))
                ctx.n["transitive_chains"] += 1
    # not types
    n, c2 = rng.choice(NON_TYPES), rng.choice([c, rng.choice(CHECKS)])
    r = ask(ctx, n, c2)
    ctx.check(r is False, "a non-type is a subtype of something", candidate=n, of=c2)
    ctx.n["non_types"] += 1
    ask(ctx, TD, c2) if not isinstance(c2, tuple) else None


class M1: ...
class M2(M1): ...


def meta_case(ctx, rng):
    """Extraction from Annotated and optional/union detection depend on meaning, not spelling."""
    base = rng.choice([int, list[int], Any, Optional[int], str])
    metas = [rng.choice([5, "s", M1, M2, M1(), M2(), Int64(), String(), Int64, String, None, 2.5, int]) for _ in range(rng.choice([1, 2, 3, 4]))]
    if rng.random() < 0.5 or len(metas) == 1:
        ann = Annotated[(base, *metas)]
    else:
        cut = rng.randrange(1, len(metas))
        ann = Annotated[(Annotated[(base, *metas[:cut])], *metas[cut:])]
    for klass in (M1, M2, Type, Int64, int, str, E):
        for kind in ("object", "class"):
            hits = [m for m in metas if (isinstance(m, klass) if kind == "object" else isinstance(m, type) and issubclass(m, klass))]
            if len(hits) > 1:
                ctx.raises(ValueError, lambda: get_item_from_annotated(ann, klass, kind=kind), f"{klass} ambiguous in {ann}")
            else:
                dflt = object()
                got = get_item_from_annotated(ann, klass, kind=kind, default=dflt)
                ctx.check(got is dflt if not hits else got == hits[0] and type(got) is type(hits[0]), "item from an annotated hint", hint=ann, klass=klass, kind=kind, got=got)
            ctx.n["extractions"] += 1
    ctx.check(get_item_from_annotated(base, int, kind="object", default=3) == 3, "plain hint has no metadata")
    # unions
    ms = rng.sample([int, str, float, bytes, list[int], A, dict[str, int]], rng.choice([1, 2, 3]))
    opt = rng.random() < 0.5
    full = ms + ([rng.choice([None, NoneType])] if opt else [])
    rng.shuffle(full)
    spellings = [Union[tuple(full)]]
    if len(full) > 1:
        h = full[0] if full[0] is not None else NoneType
        for x in full[1:]:
            h = h | x
        spellings.append(h)
        cut = rng.randrange(1, len(full))
        spellings.append(Union[Union[tuple(full[:cut])], Union[tuple(full[cut:])]])
        spellings.append(Union[tuple(full + full[:1])])
    if opt:
        spellings.append(Optional[Union[tuple(ms)]])
    for h in spellings:
        ctx.eq(is_optional_hint(h), opt, f"is_optional_hint({h})")
        ctx.eq(is_union_hint(h), len(full) > 1, f"is_union_hint({h})")
        ctx.n["spellings"] += 1
        for x in (int, bool, str, E, NoneType, list[int], list[bool], list):
            w = any(ref(("cls", x) if isinstance(x, type) and not hasattr(x, "__args__") else ("gen", list, (("cls", x.__args__[0]),)), t) for t in [("cls", NoneType if m in (None, NoneType) else m) if isinstance(m, type) and not hasattr(m, "__args__") or m is None else ("gen", m.__origin__, tuple(("cls", a) for a in m.__args__)) for m in full])
            ctx.check(ask(ctx, x, h) == w, "union as a supertype depends on its spelling", candidate=x, of=h, want=w)
    for h in (Literal[5], int, list[int], list[int | None], Any, None, NoneType, dict[str, Optional[int]], tuple[None, ...]):
        ctx.check(not is_optional_hint(h) and not is_union_hint(h), f"{h} is no union")
    ctx.seen(("meta", len(metas), len(full), opt))


def case(ctx, rng):
    for _ in range(8):
        subcase(ctx, rng)
    meta_case(ctx, rng)
