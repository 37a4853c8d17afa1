"""C16: multiple dispatch and priority registries against a reference specificity order."""
import collections.abc as cabc
import itertools
from typing import Annotated, Any

from arti import View
from arti.internal.dispatch import multipledispatch
from arti.internal.utils import register
from arti.types import Int64, String, Type, TypeAdapter, TypeSystem
from arti.types.python import python_type_system

PROP = "C16"
CASES = {"quick": 20000, "thorough": 40000}
SECONDS = {"quick": 100, "thorough": 900}


def hierarchy(rng, tag):
    root = type(f"Root{tag}", (type(f"Above{tag}", (), {}),), {})
    classes = [root]
    for i in range(rng.choice([2, 3, 4, 6])):
        for _ in range(20):
            bases = tuple(rng.sample(classes, rng.choice([1, 1, 1, min(2, len(classes))])))
            try:
                classes.append(type(f"C{tag}_{i}", bases, {}))
                break
            except TypeError:
                continue
    return root, classes


# A parameter domain: list of (annotation, kind) and how to make an argument of a concrete type
class Dom:
    def __init__(self, rng, tag):
        self.root, self.classes = hierarchy(rng, tag)
        self.kind = rng.choice(["plain", "plain", "plain", "seq"])
        self.any = rng.random() < 0.15 and self.kind == "plain"

    def ann(self, c):
        if c is Any:
            return Any
        return c if self.kind == "plain" else cabc.Sequence[c]

    def spec(self):
        return Any if self.any else self.root

    def arg(self, rng, c):
        return c() if self.kind == "plain" else rng.choice([list, tuple])([c()])

    def look(self, rng, c):
        return c if self.kind == "plain" else rng.choice([list, tuple])[c] if rng.random() < 0.0 else list[c]


def sub(a, b):
    return b is Any or (a is not Any and issubclass(a, b))


def le(s1, s2):
    """s1 is at least as specific as s2."""
    return all(sub(a, b) for a, b in zip(s1, s2, strict=True))


def make(fn_name, params, doms, sig, label, *, ret="Any", order=None):
    ns = {f"T{i}": doms[i].ann(c) for i, c in enumerate(sig)}
    ns.update(Any=Any, label=label)
    idx = order or range(len(sig))
    args = ", ".join(f"{params[i]}: T{i}" for i in idx)
    body = "raise NotImplementedError('base')" if label is None else "return label"
    exec(f"def {fn_name}({args}) -> {ret}:\n    {body}\n", ns)
    return ns[fn_name]


def outcome(fn):
    try:
        return ("ok", fn())
    except NotImplementedError:
        return ("base",)
    except TypeError:
        return ("type-error",)
    except ValueError:
        return ("value-error",)


def case_dispatch(ctx, rng):
    n = rng.choice([1, 2, 2, 3])
    tag = f"{rng.getrandbits(30):x}"
    doms = [Dom(rng, f"{tag}_{i}") for i in range(n)]
    params = [f"p{i}" for i in range(n)]
    spec_sig = tuple(d.spec() for d in doms)
    sigs = set()
    for _ in range(rng.choice([1, 2, 4, 6, 8])):
        s = tuple(rng.choice(d.classes) if rng.random() < 0.95 or not d.any else Any for d in doms)
        if s != spec_sig and not (n == 1 and doms[0].any and s == (Any,)):
            sigs.add(s)
    sigs = sorted(sigs, key=repr)
    handlers = {s: make(f"h{i}", params, doms, s, i) for i, s in enumerate(sigs)}
    calls = [tuple(rng.choice(d.classes) for d in doms) for _ in range(6)]
    results: dict = {}
    lazy_used = False
    for trial in range(3):
        order = list(sigs)
        rng.shuffle(order)
        cut = rng.randrange(len(order) + 1) if rng.random() < 0.4 else len(order)
        late = order[cut:]
        lazy = rng.random() < 0.6 and bool(late)
        state = {"done": False}
        disp = None

        def discover():
            if not state["done"]:
                state["done"] = True
                for s in late:
                    disp.register(handlers[s])

        disp = multipledispatch(f"case.{tag}.{trial}", discovery_func=discover if lazy else None)(make("base", params, doms, spec_sig, None))
        registered = []

        def expect(types):
            applicable = [s for s in registered if le(types, s)]
            minimal = [s for s in applicable if not any(o != s and le(o, s) for o in applicable)]
            return minimal

        def do_call(types):
            args = [d.arg(rng, c) for d, c in zip(doms, types)]
            style = rng.choice(["pos", "pos", "kw", "mixed"])
            k = {"pos": n, "kw": 0, "mixed": rng.randrange(n + 1)}[style]

            def call():
                return disp(*args[:k], **dict(zip(params[k:], args[k:])))

            looked = lambda: disp.lookup(*[d.look(rng, c) for d, c in zip(doms, types)])  # noqa: E731
            first = rng.random() < 0.5
            l1 = outcome(looked) if first else None
            got = outcome(call)
            lk = l1 or outcome(looked)
            if lazy and types not in registered and types != spec_sig and not any(d.any for d in doms):
                # discovery happens (at the latest) when the exact types have no handler
                ctx.check(state["done"], "handlers to be discovered were not considered", types=types)
                ctx.n["lazy_discoveries"] += 1
            if state["done"]:
                registered.extend(s for s in late if s not in registered)
            minimal = expect(types)
            ctx.n["dispatches"] += 1
            if not minimal:
                ctx.check(got == ("base",), "call without any handler is not refused", types=types, got=got, registered=registered)
                ctx.check(lk == ("value-error",), "lookup without any handler is not refused", types=types, got=lk)
                ctx.n["no_handler"] += 1
            elif len(minimal) == 1:
                want = sigs.index(minimal[0])
                ctx.check(got == ("ok", want), "call was not dispatched to the most specific handler", types=types, got=got, want=minimal[0], registered=registered)
                ctx.check(lk[0] == "ok" and lk[1] is handlers[minimal[0]], "lookup differs from the handler a call runs", types=types, got=lk)
                ctx.n["unique_most_specific"] += 1
            else:
                ctx.check(got[0] == "type-error" or (got[0] == "ok" and sigs[got[1]] in minimal), "ambiguous call ran a less specific handler", types=types, got=got)
                ctx.check((lk[0] == "ok" and got[0] == "ok" and lk[1] is handlers[sigs[got[1]]]) or (lk[0] == "value-error" and got[0] == "type-error"), "lookup differs from the call (ambiguous)", got=got, lookup=lk)
                ctx.n["ambiguous"] += 1
            key = (types, frozenset(registered))
            if key in results:
                ctx.check(results[key] == got, "dispatch depends on registration order or earlier calls", types=types, got=got, before=results[key])
            results[key] = got
            ctx.seen(("dispatch", n, len(registered), len(minimal), lazy, [d.kind for d in doms], tag, types))

        for s in order[:cut]:
            if rng.random() < 0.3:
                do_call(rng.choice(calls))
                if s in registered:  # discovery may have registered it already
                    continue
            got = disp.register(handlers[s])
            ctx.check(got is handlers[s], "register returns the function")
            registered.append(s)
            if rng.random() < 0.25:
                bad_register(ctx, rng, disp, params, doms, spec_sig)
        if not lazy:
            for s in late:
                if rng.random() < 0.5:
                    do_call(rng.choice(calls))
                if n > 1 and rng.random() < 0.3:
                    disp.register(*[d.ann(c) for d, c in zip(doms, s)])(handlers[s])
                else:
                    disp.register(handlers[s])
                registered.append(s)
        for types in calls:
            do_call(types)
        # types outside the specification
        i = rng.randrange(n)
        if not doms[i].any:
            class Out: ...
            args = [d.arg(rng, rng.choice(d.classes)) for d in doms]
            args[i] = Out() if doms[i].kind == "plain" else [Out()]
            ctx.check(outcome(lambda: disp(*args))[0] == "type-error", "a call outside the specification is accepted")


def bad_register(ctx, rng, disp, params, doms, spec_sig):
    """Handlers incompatible with the specification are refused (and leave nothing behind)."""
    n = len(params)
    kind = rng.choice(["name", "missing", "extra", "type", "kwonly", "return", "order"])

    def refused(fn):
        ctx.raises(TypeError, lambda: disp.register(fn), f"incompatible handler ({kind})")
        ctx.n[f"bad_{kind}"] += 1

    ns = {f"T{i}": d.ann(rng.choice(d.classes)) for i, d in enumerate(doms)} | {"Any": Any, "int": int}
    sig = [f"{p}: T{i}" for i, p in enumerate(params)]
    if kind == "name":
        i = rng.randrange(n)
        sig[i] = f"other: T{i}"
    elif kind == "missing":
        sig = sig[:-1]
    elif kind == "extra":
        sig.append("extra: Any")
    elif kind == "type":
        cands = [i for i, d in enumerate(doms) if not d.any]
        if not cands:
            return
        i = rng.choice(cands)
        class Unrelated: ...
        ns["U"] = Unrelated if doms[i].kind == "plain" else rng.choice([Unrelated, cabc.Sequence[Unrelated], list])
        if doms[i].kind == "seq" and rng.random() < 0.3:
            ns["U"] = doms[i].root
        if rng.random() < 0.5:  # a handler that takes more than declared
            above = rng.choice([doms[i].root.__base__, doms[i].root.__base__, object])
            ns["U"] = above if doms[i].kind == "plain" else rng.choice([cabc.Sequence[above], cabc.Iterable[doms[i].root], cabc.Sequence, object])
            ctx.n["bad_wider"] += 1
        sig[i] = f"{params[i]}: U"
    elif kind == "kwonly":
        i = rng.randrange(n)
        sig.insert(i, "*")
    elif kind == "order":
        if n < 2:
            return
        sig = sig[::-1]
    ret = "Any"
    if kind == "return":
        class Ret: ...
        class SubRet(Ret): ...
        ns2 = {"Ret": Ret, "SubRet": SubRet, "int": int, "object": object}
        exec("def base(a: int) -> Ret:\n    raise NotImplementedError\ndef good(a: int) -> SubRet:\n    return 1\ndef bad(a: int) -> int:\n    return 2\n", ns2)
        d2 = multipledispatch("ret")(ns2["base"])
        ctx.raises(TypeError, lambda: d2.register(ns2["bad"]), "handler with an incompatible return")
        exec("def bad(a: int) -> object:\n    return 2\n", ns2)
        ctx.raises(TypeError, lambda: d2.register(ns2["bad"]), "handler with a wider return")
        exec("def bad(a: bool):\n    return 2\n", ns2)
        ctx.raises(TypeError, lambda: d2.register(ns2["bad"]), "handler without a return annotation")
        exec("def bad(a: bool) -> None:\n    return 2\n", ns2)
        ctx.raises(TypeError, lambda: d2.register(ns2["bad"]), "handler returning nothing")
        ctx.check(outcome(lambda: d2(True)) == ("base",), "a refused handler was registered")
        class MyInt(int): ...
        ns2["MyInt"] = MyInt
        exec("def good(a: MyInt) -> SubRet:\n    return 1\n", ns2)
        d2.register(ns2["good"])
        ctx.check(outcome(lambda: d2(MyInt(1))) == ("ok", 1) and outcome(lambda: d2(1)) == ("base",), "handler with a narrower return")
        ctx.n["bad_return"] += 1
        return
    exec(f"def bad({', '.join(sig)}) -> {ret}:\n    return 'BAD'\n", ns)
    refused(ns["bad"])


def case_priority(ctx, rng):
    """register(): the highest priority wins, ties are refused."""
    prios = [rng.randrange(-6, 4) for _ in range(rng.choice([2, 3, 4, 5]))]
    reg: dict = {}
    model: dict = {}
    for i, p in enumerate(prios):
        key = rng.choice(["k", "k", "j"])
        val = (i, p)
        if rng.random() < 0.2:
            if key in model:
                before = dict(reg)
                ctx.raises(ValueError, lambda: register(reg, key, val), "duplicate key without priorities")
                ctx.eq(reg, before, "a refused registration changed the registry")
            else:
                ctx.check(register(reg, key, val) == val, "register returns the value")
                model[key] = val
            continue
        if key in model and model[key][1] == p:
            ctx.raises(ValueError, lambda: register(reg, key, val, lambda v: v[1]), "equal priorities for one key")
        else:
            ctx.check(register(reg, key, val, lambda v: v[1]) == val, "register returns the value")
            if key not in model or model[key][1] < p:
                model[key] = val
        ctx.eq(reg, model, "registry content")
        ctx.n["registry_ops"] += 1


def case_views(ctx, rng):
    """Views: looked up by python type, by priority in any definition order."""
    tag = f"{rng.getrandbits(30):x}"
    py = [type(f"Py{tag}_{i}", (list,) if i else (), {}) for i in range(2)]
    py.append(py[1][int])  # a view of its own for one parameter
    best: dict = {}
    allv = []
    for i in range(rng.choice([1, 2, 3, 4, 6])):
        t = rng.choice(py)
        prio = rng.randrange(-4, 4)
        ns = {"python_type": t, "priority": prio, "type_system": python_type_system, "__module__": __name__, "_abstract_": rng.random() < 0.15}
        mk = lambda: type(f"View{tag}_{i}", (View,), dict(ns))  # noqa: E731, B023
        if ns["_abstract_"]:
            mk()  # abstract views are never registered
        elif t in best and best[t].priority == prio:
            ctx.raises(ValueError, mk, "two views of equal priority for one python type")
        else:
            v = mk()
            allv.append(v)
            if t not in best or best[t].priority < prio:
                best[t] = v
        for t in py:
            if t is py[2]:
                want = best.get(t, best.get(py[1]))
                if want is not None:
                    ctx.check(View.get_class_for(t) is want, "view of a parametrized type, or else of the type", python_type=t, got=View.get_class_for(t), want=want)
                    ctx.check(View.get_class_for(Annotated[t, 5]) is want, "view of an annotated parametrized type")
                    ctx.n["parametrized_views"] += t in best
            elif t in best:
                ctx.check(View.get_class_for(t) is best[t], "view of the highest priority", python_type=t, got=View.get_class_for(t), want=best[t])
                ctx.check(View.get_class_for(Annotated[t, 5]) is best[t], "view for an annotated hint")
                if issubclass(t, list):
                    ctx.check(View.get_class_for(t[str]) is best[t], "view for a subscripted hint")
            else:
                ctx.raises(ValueError, lambda: View.get_class_for(t), "python type without a view")
        if allv:
            e = rng.choice(allv)
            ctx.check(View.get_class_for(Annotated[int, e]) is e, "explicit view wins")
        ctx.n["view_lookups"] += 1
    ctx.seen(("views", len(allv), len(best)))


def case_adapters(ctx, rng):
    """Type adapters: the matching adapter of highest priority converts, in any registration order."""
    tag = f"{rng.getrandbits(30):x}"
    prios = rng.sample(range(-3, 10), rng.choice([2, 3, 4]))
    items = []
    for i, p in enumerate(prios):
        accepts = frozenset(rng.sample("abcd", rng.choice([1, 2, 3])))
        art = rng.choice([Type, Int64, String])
        items.append((i, p, accepts, art))
    base_sys = TypeSystem(key=f"base{tag}")
    results = []
    for trial in range(2):
        order = list(items)
        rng.shuffle(order)
        ext = rng.random() < 0.4
        ts = TypeSystem(key=f"t{tag}{trial}", extends=(base_sys,) if ext else ())
        if ext and not base_sys._adapter_by_key:
            base_sys.register_adapter(type("Fallback", (TypeAdapter,), {
                "artigraph": Type, "system": str,
                "matches_system": classmethod(lambda cls, t, *, hints: True),
                "to_artigraph": classmethod(lambda cls, t, *, hints, type_system: String(description="fallback")),
                "to_system": classmethod(lambda cls, t, *, hints, type_system: "fallback")}))
        done = []
        for i, p, accepts, art in order:
            ad = type(f"Ad{i}", (TypeAdapter,), {
                "artigraph": art, "system": str, "priority": p, "label": i,
                "matches_system": classmethod(lambda cls, t, *, hints, a=accepts: t in a),
                "to_artigraph": classmethod(lambda cls, t, *, hints, type_system, i=i: String(description=str(i))),
                "to_system": classmethod(lambda cls, t, *, hints, type_system, i=i: i),
            })
            ctx.check(ts.register_adapter(ad) is ad, "register_adapter returns the adapter")
            ctx.raises(ValueError, lambda: ts.register_adapter(type(f"Ad{i}", (TypeAdapter,), {"artigraph": art, "system": str, "priority": 100})), "duplicate adapter key")
            done.append((i, p, accepts, art))
            for t in "abcd":
                m = [x for x in done if t in x[2]]
                if m:
                    want = max(m, key=lambda x: x[1])[0]
                    ctx.eq(ts.to_artigraph(t, hints={}).description, str(want), "adapter of the highest priority (to_artigraph)")
                elif ext:
                    ctx.eq(ts.to_artigraph(t, hints={}).description, "fallback", "extended system")
                else:
                    ctx.raises(NotImplementedError, lambda: ts.to_artigraph(t, hints={}), "no adapter")
            for v in (Int64(), String()):
                m = [x for x in done if isinstance(v, x[3])]
                if m:
                    ctx.eq(ts.to_system(v, hints={}), max(m, key=lambda x: x[1])[0], "adapter of the highest priority (to_system)")
                elif ext:
                    ctx.eq(ts.to_system(v, hints={}), "fallback", "extended system")
                else:
                    ctx.raises(NotImplementedError, lambda: ts.to_system(v, hints={}), "no adapter")
            ctx.n["adapter_lookups"] += 6


def case(ctx, rng):
    case_dispatch(ctx, rng)
    for _ in range(3):
        case_priority(ctx, rng)
    if rng.random() < 0.2:
        case_views(ctx, rng)
    case_adapters(ctx, rng)


def scenario_none(ctx):
    """Looking up None (the hint) finds what a call with None runs."""

    def base(value: Any) -> Any:
        raise NotImplementedError

    d = multipledispatch("none")(base)

    def _int(value: int) -> Any:
        return "int"

    def _none(value: type(None)) -> Any:
        return "none"

    d.register(_int)
    ctx.raises(ValueError, lambda: d.lookup(None), "no handler for None")
    d.register(_none)
    ctx.check(d(None) == "none" and d.lookup(None) is _none and d.lookup(type(None)) is _none and d(3) == "int" and d.lookup(bool) is _int, "dispatch of None")


SCENARIOS = [scenario_none]
