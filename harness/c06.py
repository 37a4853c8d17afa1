"""C06: fingerprint arithmetic and 64-bit integers against plain Python integers and a pure-Python Farmhash."""
import copy
import math
import operator
import pickle
import subprocess
import sys
import os
import json

from arti import Fingerprint
from arti.internal.utils import int64, uint64

from farm import farmhash64

PROP = "C06"
CASES = {"quick": 60000, "thorough": 150000}
SECONDS = {"quick": 100, "thorough": 600}

IMIN, IMAX, UMAX = -(2**63), 2**63 - 1, 2**64 - 1
RANGE = {int64: (IMIN, IMAX), Fingerprint: (IMIN, IMAX), uint64: (0, UMAX)}
EDGE = [0, 1, -1, 2, -2, 3, 7, 63, 64, 65, IMIN, IMIN + 1, IMIN - 1, IMAX, IMAX - 1, IMAX + 1, UMAX, UMAX - 1, UMAX + 1, 2**32, -(2**32), 2**31, 2**62, 2**65, -(2**64), 2**63 + 12345]


def rint(rng):
    k = rng.random()
    if k < 0.4:
        return rng.choice(EDGE)
    if k < 0.6:
        return rng.randrange(-70, 70)
    if k < 0.8:
        return rng.choice([1, -1]) * (1 << rng.randrange(0, 66)) + rng.randrange(-2, 3)
    return rng.randrange(-(2**65), 2**65)


def inrange(cls, x):
    lo, hi = RANGE[cls]
    return lo <= x <= hi


def mk(rng, cls):
    while True:
        x = rint(rng)
        if inrange(cls, x):
            return cls(x), x
        x = rng.randrange(RANGE[cls][0], RANGE[cls][1] + 1) if rng.random() < 0.5 else x
        if inrange(cls, x):
            return cls(x), x


def rstring(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 47, 63, 64, 65, 66, 100, 127, 128, 129, 191, 192, 193, 200, 255, 256, 257, rng.randrange(2000)])
    pool = rng.choice(["ascii", "bmp", "astral", "mix"])
    f = {
        "ascii": lambda: chr(rng.randrange(1, 128)),
        "bmp": lambda: chr(rng.choice([rng.randrange(0x80, 0xD800), rng.randrange(0xE000, 0xFFFE)])),
        "astral": lambda: chr(rng.randrange(0x10000, 0x10FFFF)),
        "mix": lambda: chr(rng.choice([rng.randrange(1, 128), rng.randrange(0x80, 0x800), rng.randrange(0x1F300, 0x1F600)])),
    }[pool]
    return "".join(f() for _ in range(n)), pool


def fp_ok(ctx, f, want, what):
    ctx.n["fingerprints_checked"] += 1
    ctx.check(type(f) is Fingerprint, f"{what}: result is not a Fingerprint", got=repr(f))
    ctx.check(int.__index__(f) == want and IMIN <= int.__index__(f) <= IMAX, f"{what}: wrong value", got=int.__index__(f), want=want)


def case_group(ctx, rng):
    n = rng.choice([1, 2, 3, 3, 4, 6])
    fs = [mk(rng, Fingerprint) for _ in range(n)]
    if n > 1 and rng.random() < 0.3:
        fs[1] = fs[0]
    want = 0
    for _, x in fs:
        want ^= x
    perm = fs[:]
    rng.shuffle(perm)
    first, *rest = [f for f, _ in perm]
    fp_ok(ctx, first.combine(*rest), want, "combine of a permutation")
    # nested grouping
    items = [f for f, _ in perm]
    while len(items) > 1:
        i = rng.randrange(len(items) - 1)
        j = rng.randrange(i + 1, len(items))
        chunk = items[i : j + 1]
        items[i : j + 1] = [chunk[0].combine(*chunk[1:])]
    fp_ok(ctx, items[0], want, "combine in another grouping")
    a, xa = fs[0]
    ident = Fingerprint.identity()
    fp_ok(ctx, ident, 0, "identity")
    ctx.check(ident.is_identity and a.is_identity == (xa == 0), "is_identity")
    fp_ok(ctx, a.combine(ident), xa, "identity is neutral (right)")
    fp_ok(ctx, ident.combine(a), xa, "identity is neutral (left)")
    fp_ok(ctx, a.combine(a), 0, "self inverse")
    fp_ok(ctx, a.combine(), xa, "combine of one")
    b, xb = fs[-1]
    fp_ok(ctx, a.combine(b, b), xa, "combining twice cancels")
    fp_ok(ctx, a.combine(b).combine(a), xb, "combine is invertible")
    ctx.eq(a == b, xa == xb, "fingerprint equality")
    ctx.check(xa != xb or hash(a) == hash(b), "equal fingerprints hash equally")
    for c in (copy.copy(a), copy.deepcopy(a), pickle.loads(pickle.dumps(a))):
        fp_ok(ctx, c, xa, "copied fingerprint")
    ctx.seen(("group", n, xa < 0, xb < 0, want == 0))


def case_convert(ctx, rng):
    x = rint(rng)
    for cls in (int64, uint64, Fingerprint):
        lo, hi = RANGE[cls]
        mkers = [cls] + ([Fingerprint.from_int] if cls is Fingerprint else [])
        for m in mkers:
            ctx.n["constructions"] += 1
            if inrange(cls, x):
                v = m(x)
                ctx.check(type(v) is cls and int.__index__(v) == x, f"{cls.__name__}({x})", got=repr(v))
                ctx.check(str(v) == str(x) and repr(v) == f"{cls.__name__}({x})", "text form of a 64-bit integer", got=(str(v), repr(v)))
            else:
                ctx.raises(ValueError, lambda: m(x), f"{cls.__name__}({x}) is out of range")
    if inrange(int64, x):
        for src in (int64(x), Fingerprint(x)):
            u = uint64(src)
            ctx.check(type(u) is uint64 and int.__index__(u) == x % 2**64, "signed to unsigned is two's complement", got=repr(u), x=x)
            back = int64(u)
            ctx.check(type(back) is int64 and int.__index__(back) == x, "signed -> unsigned -> signed", got=repr(back), x=x)
        fp_ok(ctx, Fingerprint.from_int64(int64(x)), x, "from_int64")
        ctx.check(int64(int64(x)) == x and type(int64(Fingerprint(x))) is int64, "int64 of int64")
    if inrange(uint64, x):
        s = int64(uint64(x))
        w = x if x <= IMAX else x - 2**64
        ctx.check(type(s) is int64 and int.__index__(s) == w, "unsigned to signed is two's complement", got=repr(s), x=x)
        u = uint64(s)
        ctx.check(type(u) is uint64 and int.__index__(u) == x, "unsigned -> signed -> unsigned", got=repr(u), x=x)
        fp_ok(ctx, Fingerprint.from_uint64(uint64(x)), w, "from_uint64")
        ctx.check(int.__index__(uint64(uint64(x))) == x, "uint64 of uint64")
    ctx.seen(("convert", x < IMIN, x < 0, x > IMAX, x > UMAX, x.bit_length()))


BIN = {
    "+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "%": operator.mod,
    "&": operator.and_, "|": operator.or_, "^": operator.xor, "<<": operator.lshift, ">>": operator.rshift,
}
UN = {"neg": operator.neg, "pos": operator.pos, "invert": operator.invert, "ceil": math.ceil, "floor": math.floor, "trunc": math.trunc, "round": round}


def case_ops(ctx, rng):
    cls = rng.choice([int64, uint64, Fingerprint])
    a, xa = mk(rng, cls)
    if rng.random() < 0.2:
        name = rng.choice(list(UN))
        want = UN[name](xa)
        got_fn = lambda: UN[name](a)  # noqa: E731
        desc = f"{name} {cls.__name__}({xa})"
        # round/ceil/... of a 64-bit integer is itself
        kinds = {cls}
    else:
        name = rng.choice(list(BIN))
        other = rng.choice(["plain", "plain", "same", "mixed"])
        if other == "plain":
            xb = rint(rng)
            b = xb
            kinds = {cls}
        else:
            bc = cls if other == "same" else rng.choice([int64, uint64, Fingerprint])
            b, xb = mk(rng, bc)
            kinds = {cls, bc}
        if name in ("<<", ">>"):
            xs = rng.choice([0, 1, 2, 5, 31, 62, 63, 64, 70, -1])
            if other == "plain" or not inrange(type(b), xs):
                b = xb = xs
                kinds = {cls}
            else:
                b, xb = type(b)(xs), xs
        swap = other == "plain" and rng.random() < 0.5
        if swap and name in ("<<", ">>"):
            a, xa = cls(abs(xs)), abs(xs)
            b = xb = rng.choice([0, 1, -1, 3, 2**40, rint(rng)])
        op = BIN[name]
        if swap:
            got_fn = lambda: op(b, a)  # noqa: E731
            wf = lambda: op(xb, xa)  # noqa: E731
            desc = f"{xb} {name} {cls.__name__}({xa})"
        else:
            got_fn = lambda: op(a, b)  # noqa: E731
            wf = lambda: op(xa, xb)  # noqa: E731
            desc = f"{cls.__name__}({xa}) {name} {b!r}"
        try:
            want = wf()
        except (ZeroDivisionError, ValueError) as e:
            ctx.raises(type(e), got_fn, desc)
            return
    ctx.n["operations"] += 1
    fits = [k for k in kinds if inrange(k, want)]
    if not fits:
        ctx.raises(ValueError, got_fn, f"{desc} overflows")
        ctx.n["overflows_rejected"] += 1
        ctx.seen(("overflow", name, cls.__name__, xa < 0))
        return
    try:
        got = got_fn()
    except ValueError:
        ctx.check(len(fits) < len(kinds), f"{desc} = {want} is representable but was rejected")
        return
    ctx.check(type(got) in kinds and int.__index__(got) == want, f"{desc}: wrong result", got=repr(got), want=want)
    ctx.check(inrange(type(got), int.__index__(got)), f"{desc}: out of range result", got=repr(got))
    ctx.seen(("op", name, cls.__name__, xa < 0, want < 0, want.bit_length() // 8))


def case_string(ctx, rng):
    s, pool = rstring(rng)
    u = farmhash64(s.encode())
    want = u if u <= IMAX else u - 2**64
    fp_ok(ctx, Fingerprint.from_string(s), want, f"from_string of {len(s)} {pool} characters")
    fp_ok(ctx, Fingerprint.from_string("".join(list(s))), want, "from_string of an equal string")
    ctx.n["strings"] += 1
    ctx.seen(("string", len(s.encode()) % 64, len(s.encode()) // 64, pool), {"len": len(s), "pool": pool, "fp": want})


def case(ctx, rng):
    for _ in range(5):
        case_group(ctx, rng)
        case_convert(ctx, rng)
        for _ in range(4):
            case_ops(ctx, rng)
    case_string(ctx, rng)


def scenario_process(ctx):
    """The same strings fingerprint identically in other processes."""
    import random

    rng = random.Random(f"c06/{ctx.seed}")
    ss = [rstring(rng)[0] for _ in range(50)]
    mine = [int(Fingerprint.from_string(s)) for s in ss]
    for hs in ("0", "12345"):
        env = {**os.environ, "PYTHONHASHSEED": hs}
        out = subprocess.run([sys.executable, "-c", "import sys,json;from arti import Fingerprint;print(json.dumps([int(Fingerprint.from_string(s)) for s in json.load(sys.stdin)]))"], input=json.dumps(ss), env=env, capture_output=True, text=True, check=True)
        ctx.eq(json.loads(out.stdout), mine, "string fingerprints in another process")
        ctx.n["cross_process"] += len(ss)


def scenario_snapshot_id(ctx):
    """Fingerprints stay in range when supplied as model fields too."""
    from arti import Graph, GraphSnapshot

    g = Graph(name="x")
    for x in (2**63, -(2**63) - 1, 2**64, 10**30):
        ctx.raises(Exception, lambda: GraphSnapshot(id=x, graph=g), f"snapshot id {x}")
    for x in (IMIN, IMAX, 0, -5):
        ctx.check(int(GraphSnapshot(id=Fingerprint(x), graph=g).id) == x, "snapshot id")


SCENARIOS = [scenario_process, scenario_snapshot_id]
