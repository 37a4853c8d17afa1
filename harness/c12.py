"""C12: TypedBox against a tree-of-leaves model, frozendict against dict."""
import copy
import itertools
import pickle
from collections import OrderedDict, UserDict
from collections.abc import Mapping
from types import MappingProxyType

from arti.internal.mappings import TypedBox, frozendict

from core import Violation, in_child

PROP = "C12"
CASES = {"quick": 40000, "thorough": 120000}
SECONDS = {"quick": 100, "thorough": 600}


class Leaf:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Leaf) and self.n == o.n

    def __hash__(self):
        return hash(("leaf", self.n))

    def __repr__(self):
        return f"Leaf({self.n})"


class SubLeaf(Leaf):
    __slots__ = ()


class CLeaf(Leaf):
    """Casts ints and 1-tuples; returns junk for strings; refuses the rest."""

    __slots__ = ()

    @classmethod
    def cast(cls, value):
        if type(value) is int:
            return cls(value)
        if isinstance(value, str):
            return value
        raise ValueError(f"cannot cast {value!r}")


class Box(TypedBox[Leaf]):
    pass


class CBox(TypedBox[CLeaf]):
    pass


NAMES = ["a", "b", "c", "x", "long name", "é", "a-b", "0"]
BAD = ["_p", "__x", "_"]


# ------------------------------------------------------------------ TypedBox
def leaves(t, root=()):
    out = {}
    for k, v in t.items():
        if isinstance(v, dict):
            out.update(leaves(v, (*root, k)))
        else:
            out[".".join((*root, k))] = v
    return out


def sync(box, target):
    """The box's tree, observed only through iteration and item access of existing names."""
    out = {}
    for k, v in box.items():
        if isinstance(v, target):
            out[k] = v
        elif isinstance(v, TypedBox):
            out[k] = sync(v, target)
        else:
            raise Violation(f"a value of undeclared type in the box: {k}={v!r}")
    return out


def lookup(t, path):
    for p in path:
        if not isinstance(t, dict) or p not in t:
            return None
        t = t[p]
    return t


class BoxCase:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.cls = rng.choice([Box, CBox])
        self.target = self.cls.__target_type__
        self.n = 0
        self.tree: dict = {}
        self.closed = False
        init = self.value_tree(2)
        form = rng.randrange(3)
        flat = dict(init)
        if form == 0:
            self.box = self.cls(flat)
        elif form == 1:
            self.box = self.cls(list(flat.items()))
        else:
            self.box = self.cls(flat, **{"kw": self.leaf_in()})
            flat = {**flat, "kw": None}
        self.tree = sync(self.box, self.target)
        want = {}
        for k, v in init.items():
            self.expect_leaves(want, k, v)
        got = leaves(self.tree)
        if form == 2:
            ctx.check("kw" in got, "keyword leaf present")
            got.pop("kw")
        ctx.eq(got, want, "leaves after construction")

    def leaf_in(self):
        self.n += 1
        if self.cls is CBox:
            return self.rng.choice([self.n, CLeaf(self.n)])
        return self.rng.choice([Leaf, SubLeaf])(self.n)

    def casted(self, v):
        return CLeaf(v) if type(v) is int else v

    def expect_leaves(self, out, prefix, v):
        if isinstance(v, Mapping):
            for k, x in v.items():
                self.expect_leaves(out, f"{prefix}.{k}", x)
        else:
            out[prefix] = self.casted(v)

    def value_tree(self, depth):
        out = {}
        for name in self.rng.sample(NAMES, self.rng.choice([0, 1, 2, 3])):
            out[name] = self.value_tree(depth - 1) if depth and self.rng.random() < 0.4 else self.leaf_in()
        return out

    def path(self):
        r = self.rng
        all_paths = [()]

        def rec(t, root):
            for k, v in t.items():
                all_paths.append((*root, k))
                if isinstance(v, dict):
                    rec(v, (*root, k))

        rec(self.tree, ())
        base = r.choice(all_paths)
        extra = tuple(r.choice(NAMES) for _ in range(r.choice([0, 0, 1, 1, 2])))
        p = base + extra
        return p or (r.choice(NAMES),)

    def verify(self, what):
        """Every access style agrees with the model tree, and observing changes nothing."""
        ctx = self.ctx
        want = leaves(self.tree)
        ctx.eq(dict(self.box.walk()), want, f"leaves after {what}")
        ctx.check(len(list(self.box.walk())) == len(want), "a leaf is walked more than once")

        def rec(box, t, path):
            ctx.check(sorted(box) == sorted(t) and len(box) == len(t), f"names at {'.'.join(path) or 'root'} after {what}", got=sorted(box), want=sorted(t))
            for k, v in t.items():
                items = {"item": box[k], "attr": getattr(box, k), "dotted": self.box[".".join((*path, k))]}
                ctx.check(all(x is items["item"] for x in items.values()), "access styles disagree", key=".".join((*path, k)))
                ctx.check(k in box and ".".join((*path, k)) in self.box, "membership of an existing name", key=k)
                if isinstance(v, dict):
                    ctx.check(isinstance(items["item"], self.cls) and not isinstance(items["item"], self.target), "nested node type")
                    rec(items["item"], v, (*path, k))
                else:
                    ctx.check(items["item"] is v or items["item"] == v, "leaf value", key=k)
                    ctx.check(isinstance(items["item"], self.target), "leaf type", key=k)

        rec(self.box, self.tree, ())
        ctx.eq(sync(self.box, self.target), self.tree, f"observing the box changed it (after {what})")

    def step(self):
        r, ctx = self.rng, self.ctx
        op = r.choice(["set", "set", "set", "setmap", "contains", "contains", "get", "get", "bad", "badtype", "iterate", "close", "open", "hash", "alias", "setattr"])
        ctx.n[f"box_{op}"] += 1
        p = self.path()
        key = ".".join(p)
        before = leaves(self.tree)
        if op == "contains":
            q = key if r.random() < 0.9 else key + "." + r.choice(NAMES)
            got = q in self.box
            ctx.eq(got, lookup(self.tree, q.split(".")) is not None, f"membership of {q!r}")
            ctx.check((q not in self.box) is (not got), "not in")
        elif op == "get":
            node = lookup(self.tree, p)
            if node is not None:
                got = self.box[key]
                ctx.check(isinstance(got, self.target) == (not isinstance(node, dict)), "kind of node")
                if not isinstance(node, dict):
                    ctx.check(got == node, "value of leaf", key=key)
            else:
                blocked = any(isinstance(lookup(self.tree, p[:i]), self.target) for i in range(1, len(p)))
                style = r.choice(["item", "attr"])

                def acc():
                    if style == "item":
                        return self.box[key]
                    b = self.box
                    for q in p:
                        b = getattr(b, q)
                    return b

                if self.closed or blocked:
                    ctx.raises((KeyError, AttributeError, TypeError, ValueError), acc, f"access of missing {key!r} (closed={self.closed})")
                    self.tree = self.resync(before, "failed access")
                else:
                    got = acc()
                    ctx.check(isinstance(got, self.cls) and len(got) == 0, "missing name of an open box is an empty node", key=key)
                    self.tree = self.resync(before, "auto-created node")
        elif op in ("set", "setattr", "setmap", "alias"):
            if op in ("setmap", "alias"):
                value = self.value_tree(r.choice([0, 1, 2]))
                if r.random() < 0.3 and value:
                    k = next(iter(value))
                    value = {f"{k}.{r.choice(NAMES)}": self.leaf_in(), **{a: b for a, b in value.items() if a != k}}
                if op == "alias":
                    value = self.cls(value)
                elif r.random() < 0.3:
                    value = r.choice([frozendict, UserDict, MappingProxyType])(value) if not any(isinstance(v, dict) for v in value.values()) else value
            else:
                value = self.leaf_in()
            want = dict(before)
            new: dict = {}
            self.expect_leaves(new, key, value)
            node = lookup(self.tree, p)
            conflict = any(isinstance(lookup(self.tree, p[:i]), self.target) for i in range(1, len(p)))
            if isinstance(value, Mapping):
                conflict = conflict or isinstance(node, self.target)
                for k in new:
                    q = k.split(".")
                    ex = lookup(self.tree, q)
                    conflict = conflict or ex is not None or any(isinstance(lookup(self.tree, q[:i]), self.target) for i in range(1, len(q)))
                # empty nested mappings over an existing leaf
                conflict = conflict or self.empty_conflict(value, p)
            else:
                conflict = conflict or node is not None

            def do():
                if op == "setattr":
                    b = self.box
                    for q in p[:-1]:
                        b = getattr(b, q)
                    setattr(b, p[-1], value)
                elif r.random() < 0.5 or len(p) == 1:
                    self.box[key] = value
                else:
                    cut = r.randrange(1, len(p))
                    self.box[".".join(p[:cut])][".".join(p[cut:])] = value

            if self.closed:
                if isinstance(value, Mapping) and isinstance(node, dict):
                    # (merging nothing into a closed node is not an addition)
                    try:
                        do()
                    except (ValueError, AttributeError, KeyError, TypeError):
                        pass
                else:
                    ctx.raises((ValueError, AttributeError, KeyError, TypeError), do, f"adding {key!r} to a closed box")
                self.tree2 = sync(self.box, self.target)
                ctx.eq(self.tree2, self.tree, "a closed box changed")
                ctx.n["box_closed_writes_refused"] += 1
            elif conflict:
                ctx.raises((ValueError, AttributeError, KeyError, TypeError), do, f"conflicting assignment of {key!r}")
                now = leaves(sync(self.box, self.target))
                for k, v in before.items():
                    ctx.check(k in now and now[k] is v or now.get(k) == v, "a leaf was overwritten or lost by a refused assignment", key=k)
                for k in set(now) - set(before):
                    ctx.check(k in new and now[k] == new[k], "a refused assignment added an unrelated leaf", key=k)
                self.tree = sync(self.box, self.target)
                ctx.n["box_conflicts_refused"] += 1
            else:
                do()
                want.update(new)
                self.tree = sync(self.box, self.target)
                ctx.eq(leaves(self.tree), want, f"leaves after assigning {key!r}")
                if isinstance(value, Mapping):
                    ctx.check(isinstance(lookup(self.tree, p), dict), "an assigned mapping is a node")
                if op == "alias" and value is not None:
                    extra = f"z{self.n}"
                    value[extra] = self.leaf_in()
                    ctx.eq(sync(self.box, self.target), self.tree, "adding to a mapping assigned earlier changed the box")
                ctx.n["box_sets"] += 1
        elif op == "bad":
            bad = ".".join((*p[:-1], r.choice(BAD)))
            tree0 = self.tree
            ctx.raises((AttributeError, KeyError, TypeError, ValueError), lambda: self.box.__setitem__(bad, self.leaf_in()), f"assigning private {bad!r}")
            ctx.raises((AttributeError, KeyError, TypeError, ValueError), lambda: setattr(self.box, r.choice(["_p", "__x", "_zz"]), self.leaf_in()), "assigning a private attribute")
            ctx.raises((AttributeError, KeyError, TypeError, ValueError), lambda: self.box[bad], f"accessing private {bad!r}")
            self.tree = self.resync(leaves(tree0), "private name")
        elif op == "badtype":
            vals = [None, object(), [1], b"x", (1, 2)] + ([3, "s", 2.5] if self.cls is Box else ["s", 2.5])
            v = r.choice(vals)
            ctx.raises((TypeError, ValueError, AttributeError, KeyError), lambda: self.box.__setitem__(key, v), f"assigning {v!r}")
            self.tree = self.resync(before, "value of the wrong type")
        elif op == "iterate":
            list(self.box), list(self.box.keys()), list(self.box.values()), list(self.box.items()), len(self.box), repr(self.box), list(self.box.walk())
            _ = self.box == self.box, self.box == {}
        elif op == "close":
            self.box._status.root = "closed"
            self.closed = True
        elif op == "open" and self.closed and r.random() < 0.3:
            self.box._status.root = "open"
            self.closed = False
        elif op == "hash":
            if self.closed:
                h = hash(self.box)
                # equal content in another insertion order
                other = self.cls()
                items = list(leaves(self.tree).items())
                r.shuffle(items)
                for k, v in items:
                    other[k] = v
                other._status.root = "closed"
                if not self.has_empty(self.tree):
                    ctx.check(other == self.box and hash(other) == h, "equal boxes have equal hashes in any insertion order")
            else:
                ctx.raises(ValueError, lambda: hash(self.box), "hash of an open box")
        self.verify(op)
        ctx.seen(("box", op, self.closed, len(p), lookup(self.tree, p) is None, len(before)))

    def has_empty(self, t):
        return any(isinstance(v, dict) and (not v or self.has_empty(v)) for v in t.values())

    def empty_conflict(self, value, p):
        for k, v in value.items():
            q = (*p, *k.split("."))
            if isinstance(v, Mapping):
                if isinstance(lookup(self.tree, q), self.target) or self.empty_conflict(v, q):
                    return True
            if any(isinstance(lookup(self.tree, q[:i]), self.target) for i in range(1, len(q))):
                return True
        return False

    def resync(self, before, what):
        t = sync(self.box, self.target)
        self.ctx.eq(leaves(t), before, f"leaves changed by {what}")
        if self.closed:
            self.ctx.eq(t, self.tree, f"a closed box changed ({what})")
        return t


# ------------------------------------------------------------------ frozendict
KEYS = ["a", "b", "c", "d", 1, 2, (1, 2), None, "é", 2.5, frozenset([1])]


def rdict(rng, depth=1):
    out = {}
    for k in rng.sample(KEYS, rng.choice([0, 1, 2, 3, 5])):
        out[k] = frozendict(rdict(rng, depth - 1)) if depth and rng.random() < 0.2 else rng.choice([0, 1, "x", "y", (1, "z"), None, 3.5, "ünï", frozenset(["q", "r"])])
    return out


class SubFrozen(frozendict):
    pass


def shuffled(rng, d):
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


def case_frozen(ctx, rng):
    d = rdict(rng)
    cls = rng.choice([frozendict, frozendict, SubFrozen])
    src = dict(d)
    form = rng.randrange(4)
    if form == 0:
        f = cls(src)
    elif form == 1:
        f = cls(list(src.items()))
    elif form == 2:
        f = cls(cls(src))
    else:
        strs = {k: v for k, v in src.items() if isinstance(k, str)}
        f = cls({k: v for k, v in src.items() if not isinstance(k, str)}, **strs)
    g = cls(shuffled(rng, d))
    ctx.check(f == g and not (f != g) and hash(f) == hash(g), "equal content in another insertion order is equal with equal hash", d=d)
    ctx.check(f == d and d == f and dict(f) == d and len(f) == len(d) and set(f) == set(d), "content")
    for k in KEYS:
        ctx.check((k in f) == (k in d) and f.get(k, "dflt") == d.get(k, "dflt"), "lookup", k=k)
        if k in d:
            ctx.check(f[k] == d[k] and type(f[k]) is type(d[k]), "item", k=k)
        else:
            ctx.raises(KeyError, lambda: f[k], "missing key")
    ctx.check(sorted(map(repr, f.items())) == sorted(map(repr, d.items())), "items")
    ctx.check(f in {g: 1} and {f, g} == {f}, "usable as a key")
    h = hash(f)
    # mutating the source or trying to mutate the value
    src["a"] = "mutated"
    src.pop("b", None)
    ctx.check(f == d and hash(f) == h, "mutating the source dict changed the frozen mapping")
    k0 = rng.choice(KEYS)
    for att in (lambda: f.__setitem__(k0, 1), lambda: f.__delitem__(k0), lambda: f.update({}), lambda: f.pop(k0), lambda: f.clear(), lambda: f.setdefault(k0, 1), lambda: f.popitem()):
        ctx.raises((TypeError, AttributeError), att, "mutating a frozen mapping")
    for meth in ("__setitem__", "__delitem__", "update", "pop", "popitem", "clear", "setdefault", "__ior__"):
        ctx.check(not hasattr(f, meth), f"a frozen mapping has {meth}")
    # unequal content
    e = rdict(rng)
    ctx.check((f == cls(e)) == (d == e), "equality is content equality", d=d, e=e)
    ctx.check((f == e) == (d == e), "equality with a dict")
    # merging
    wrap = rng.choice([dict, frozendict, SubFrozen, UserDict, MappingProxyType, OrderedDict])
    other = wrap(e)
    m = f | other
    ctx.check(isinstance(m, cls) and dict(m) == {**d, **e} and hash(m) == hash(cls({**d, **e})), "f | other", left=d, right=e, got=m, kind=wrap.__name__)
    if wrap in (dict, frozendict, SubFrozen, MappingProxyType):
        m2 = other | f
        ctx.check(isinstance(m2, frozendict) and dict(m2) == {**e, **d}, "other | f", left=e, right=d, got=m2, kind=wrap.__name__)
        ctx.check(hash(m2) == hash(frozendict({**e, **d})), "hash of other | f")
    f2 = f
    f2 |= e
    ctx.check(f == d and hash(f) == h and dict(other) == e and dict(f2) == {**d, **e}, "merging changed an operand")
    for c in (copy.copy(f), copy.deepcopy(f), pickle.loads(pickle.dumps(f)), pickle.loads(pickle.dumps(f, protocol=2))):
        ctx.check(type(c) is cls and c == f and hash(c) == h and dict(c) == d, "copied frozen mapping")
    # unhashable content refused
    for bad in ([1], {"x": 1}, {1}, bytearray(b"x")):
        ctx.raises(TypeError, lambda: cls({"k": bad}), "unhashable value")
        ctx.raises(TypeError, lambda: cls(k=bad), "unhashable value")
        ctx.raises(TypeError, lambda: f | {"k": bad}, "merging an unhashable value")
    ctx.n["frozen_cases"] += 1
    ctx.seen(("frozen", len(d), len(e), wrap.__name__, cls.__name__, form))


CHILD = """
import sys
sys.path.insert(0, %r)
from arti.internal.mappings import frozendict
from c12 import SubFrozen
R = []
for f, items, ref in P:
    fresh = type(f)(items)
    ok = (f == fresh, hash(f) == hash(fresh), f in {fresh: 1}, fresh in {f}, dict(f) == dict(items), f | {} == fresh)
    R.append((ok, f))
"""


def scenario_processes(ctx):
    import random
    from pathlib import Path

    rng = random.Random(f"c12/{ctx.seed}")
    batch = []
    for _ in range(60):
        d = rdict(rng, 2)
        f = rng.choice([frozendict, SubFrozen])(d)
        batch.append((f, list(shuffled(rng, d).items()), None))
    for hs in (0, 77):
        res = in_child(CHILD % str(Path(__file__).parent), batch, hs)
        for (f, items, _), (ok, back) in zip(batch, res, strict=True):
            ctx.check(all(ok), "frozen mapping unpickled in another process", f=f, ok=ok)
            ctx.check(back == f and hash(back) == hash(f) and back in {f}, "frozen mapping pickled back from another process", f=f)
            ctx.n["cross_process"] += 1


def case(ctx, rng):
    for _ in range(2):
        case_frozen(ctx, rng)
    b = BoxCase(ctx, rng)
    for _ in range(rng.choice([5, 10, 20])):
        b.step()


SCENARIOS = [scenario_processes]
