"""C22: version changes invalidate results exactly as the version policy says.

Small graphs whose steps return a fresh nonce on every run, so any reuse or re-run is visible in the value.
The model maps (step, significant version, input contents) to the value that run returned; every build's runs
and every value read are compared with it over random histories of version changes, input edits, reverts and
fresh backends.
"""
import datetime
import os
import subprocess
from pathlib import Path
from zoneinfo import ZoneInfo

from arti import Artifact, Graph, Producer, Version, producer
from arti import types as T
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.versions import GitCommit, SemVer, String, Timestamp

from core import Violation

PROP = "C22"
CASES = {"quick": 2600, "thorough": 60000}
SECONDS = {"quick": 100, "thorough": 1200}

UTC = datetime.timezone.utc
ZONES = [UTC, datetime.timezone(datetime.timedelta(hours=5, minutes=30)), ZoneInfo("America/New_York")]


# A version spec is (kind, ...); `sig` is what the policy says is significant.
def sig(spec):
    if spec is None:
        return ("SemVer", 0, 0, 1)  # the documented default of a producer
    if spec[0] == "SemVer" and spec[1] >= 1:
        return spec[:2]
    return spec


def make(spec):
    k = spec[0]
    if k == "SemVer":
        return SemVer(major=spec[1], minor=spec[2], patch=spec[3])
    if k == "String":
        return String(value=spec[1])
    if k == "GitCommit":
        return GitCommit(sha=spec[1])
    return Timestamp(dt=spec[1])


def new_spec(rng, old):
    """Often a close neighbour of the old version."""
    if old is not None and rng.random() < 0.75:
        k = old[0]
        if k == "SemVer":
            new = list(old)
            i = rng.choice([1, 2, 2, 3, 3])
            new[i] = max(0, new[i] + rng.choice([-1, 1, 1, 9, 10]))
            if rng.random() < 0.15:  # components swapped: 0.1.2 and 0.2.1 are different versions
                new[2], new[3] = new[3], new[2]
            return tuple(new)
        if k == "Timestamp":
            return (k, old[1] + rng.choice([datetime.timedelta(microseconds=1), datetime.timedelta(seconds=1), datetime.timedelta(hours=1), datetime.timedelta(days=365)]) * rng.choice([-1, 1]))
        v = old[1]
        return (k, rng.choice([v + " ", v + "0", v.upper(), v[::-1], v[:-1], "", v + "é"]))
    k = rng.choice(["SemVer", "SemVer", "SemVer", "String", "GitCommit", "Timestamp"])
    if k == "SemVer":
        return (k, rng.choice([0, 0, 1, 1, 2, 10]), rng.randrange(3), rng.randrange(3))
    if k == "Timestamp":
        return (k, datetime.datetime(2020, 1, 1, tzinfo=rng.choice(ZONES)) + datetime.timedelta(seconds=rng.randrange(10**6)))
    return (k, rng.choice(["", "1", "v1", "1.0.0", "0.0.1", "abc", "b" * 40]))


class Step:
    def __init__(self, rng, i, sources):
        self.uid = f"Ver{rng.getrandbits(40):x}"
        self.inputs = [(f"p{j}", src) for j, src in enumerate(rng.sample(sources, min(len(sources), rng.choice([1, 1, 2, 3]))))]
        self.where, self.fmt = rng.choice([("literal", "json"), ("local", "json"), ("local", "pickle")])
        self.coarse = rng.random() < 0.3  # different versions and inputs often give the same result
        self.style = rng.choice(["decorator", "class", "class", "instance", "copy"])
        self.name = rng.choice(["", "a.", "a.b."]) + f"out{i}"
        self.spec = None if rng.random() < 0.2 else new_spec(rng, None)
        self.used = [self.spec]


def case(ctx, rng):
    root = ctx.tmpdir()
    raws = {f"raw{i}": rng.randrange(10**6) for i in range(rng.choice([1, 2]))}
    steps: list[Step] = []
    for i in range(rng.choice([1, 2, 3, 4])):
        steps.append(Step(rng, i, [*raws, *(s.name for s in steps)]))
    log: list = []
    runs = [0]

    def impl(s, kwargs):
        runs[0] += 1
        v = rng.randrange(2) if s.coarse else runs[0] * 1000 + rng.randrange(1000)
        log.append((s.uid, kwargs, v))
        return v

    def klass(s, spec):
        params = [p for p, _ in s.inputs]
        ns = {"_impl": impl, "_s": s}
        exec(f"def {s.uid}({', '.join(f'{p}: int' for p in params)}) -> int:\n    return _impl(_s, dict({', '.join(f'{p}={p}' for p in params)}))\n", ns)  # noqa: S102
        if s.style == "decorator":
            return producer(version=make(spec))(ns[s.uid]) if spec is not None else producer()(ns[s.uid])
        body = {"__module__": __name__, "__annotations__": {p: Artifact for p in params}, "build": staticmethod(ns[s.uid])}
        if spec is not None and s.style == "class":
            body["__annotations__"]["version"] = Version
            body["version"] = make(spec)
        return type(s.uid, (Producer,), body)

    backend, bid = MemoryBackend(), 0
    state = {}

    def define():
        with Graph(name="versions", backend=backend) as g:
            for n, v in raws.items():
                g.artifacts[n] = Artifact(type=T.Int64(), format=JSON(), storage=LocalFile.rooted_at(root / "raw"))
            for s in steps:
                kw = {p: g.artifacts[src] for p, src in s.inputs}
                cls = klass(s, s.spec)
                if s.style == "instance" and s.spec is not None:
                    p = cls(version=make(s.spec), **kw)
                elif s.style == "copy" and s.spec is not None:
                    p = cls(**kw)
                    if rng.random() < 0.5:
                        _ = p.fingerprint
                    p = p.model_copy(update={"version": make(s.spec)})
                else:
                    p = cls(**kw)
                g.artifacts[s.name] = p.out(Artifact(type=T.Int64(), format=JSON() if s.fmt == "json" else Pickle(), storage=StringLiteral() if s.where == "literal" else LocalFile.rooted_at(root / "out")))
        state["g"] = g

    def put(n):
        state["g"].write(raws[n], artifact=state["g"].artifacts[n])

    define()
    for n in raws:
        put(n)
    results: dict = {}  # dep -> value of its last run
    known, touched, disk = set(), set(), set()
    ids: dict = {}

    def build():
        g = state["g"]
        if rng.random() < 0.3:  # what makes a version significant decides the graph's identity, too
            snap = g.snapshot()
            log.clear()
            snap.build()
        else:
            log.clear()
            snap = g.build()
        ran = {}
        for uid, kwargs, v in log:
            ctx.check(uid not in ran, f"{uid} ran twice in one build")
            ran[uid] = (kwargs, v)
        vals = dict(raws)
        for s in steps:
            args = {p: vals[src] for p, src in s.inputs}
            # results are stored (in the format of the input), so equal values have equal contents
            dep = (s.uid, sig(s.spec), tuple((p, v, src if src in raws else next(x.fmt for x in steps if x.name == src)) for (p, src), v in zip(s.inputs, args.values())))
            if (bid, dep) in known:
                e = "mustnot"
            elif s.where == "local" and dep in disk:
                e = "mustnot" if (bid, s.name) not in touched else "may"
            else:
                e = "must"
            ctx.n[f"expect_{e}"] += 1
            n = s.uid in ran
            what = f"step with version {s.spec} (earlier: {s.used[-4:-1]})"
            ctx.check(not (e == "must" and not n), f"{what} was not run although that version has no result for these inputs")
            ctx.check(not (e == "mustnot" and n), f"{what} was run again although an equally significant version's result exists for these inputs")
            if n:
                ctx.eq(ran[s.uid][0], args, f"arguments of {what}")
                results[dep] = ran[s.uid][1]
                ctx.n["runs"] += 1
            else:
                ctx.n["reuses"] += 1
            known.add((bid, dep))
            touched.add((bid, s.name))
            if s.where == "local":
                disk.add(dep)
            vals[s.name] = results[dep]
            got = snap.read(g.artifacts[s.name], annotation=int)
            ctx.eq(got, results[dep], f"value of {what}")
            ctx.seen((e, n, s.spec and s.spec[0], s.style, s.where, s.coarse, len(s.inputs), s.used[-2:] and s.used[-2:][0] and s.used[-2:][0][0]))
        ident = (tuple(raws.items()), tuple(sig(s.spec) for s in steps))
        ctx.check(ids.setdefault(ident, snap.id) == snap.id, "an insignificant version change changed the snapshot's identity")
        ctx.check(sum(v == snap.id for v in ids.values()) == 1, "significantly different versions share a snapshot identity")

    build()
    ops = []
    for _ in range(rng.choice([2, 4, 8])):
        for _ in range(rng.choice([1, 1, 2])):
            op = rng.choice(["bump", "bump", "bump", "bump", "back", "back", "raw", "fresh", "nothing"])
            ops.append(op)
            s = rng.choice(steps)
            if op == "bump":
                s.spec = new_spec(rng, s.spec)
                s.used.append(s.spec)
                ctx.n["bump_significant" if sig(s.spec) != sig(s.used[-2]) else "bump_insignificant"] += 1
            elif op == "back":
                s.spec = rng.choice(s.used)
                s.used.append(s.spec)
                ctx.n["went_back"] += 1
            elif op == "raw":
                n = rng.choice(list(raws))
                raws[n] = rng.randrange(10**6)
                put(n)
            elif op == "fresh":
                backend, bid = MemoryBackend(), bid + 1
        define()
        build()
    # the fingerprint of a version is a function of its significant part
    a = new_spec(rng, None)
    b = new_spec(rng, a)
    ctx.check((make(a).fingerprint == make(b).fingerprint) == (sig(a) == sig(b)), "version fingerprints", a=a, b=b)
    invalid(ctx, rng)
    if len(ctx.samples) < 4:
        ctx.samples.append({"case": ctx.case_id, "ops": ops, "versions": [repr(s.used)[:300] for s in steps]})
    ctx.rmdir(root)


def invalid(ctx, rng):
    naive = datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=rng.randrange(10**9))
    spec = {"major": rng.randrange(3), "minor": rng.randrange(3), "patch": rng.randrange(3)}
    field = rng.choice(list(spec))
    what, fn = rng.choice([
        ("timestamp without timezone", lambda: Timestamp(dt=naive)),
        ("timestamp that is not a time", lambda: Timestamp(dt=rng.choice(["now", None, (1, 2), naive.date()]))),
        ("semantic version without a component", lambda: SemVer(**{k: v for k, v in spec.items() if k != field})),
        ("semantic version with a non-integer component", lambda: SemVer(**{**spec, field: rng.choice(["x", None, 1.5, (1,), "1.2"])})),
        ("semantic version with an unknown component", lambda: SemVer(**spec, build=1)),
        ("string version that is not a string", lambda: String(value=rng.choice([1, None, 1.5, b"x", ["x"]]))),
        ("string version without a value", lambda: String()),
        ("commit that is not a string", lambda: GitCommit(sha=rng.choice([1, None, ["x"]]))),
        ("producer version that is not a version", lambda: define_with(rng.choice(["1.0", 1, (1, 0, 0), None, datetime.datetime.now(UTC)]))),
    ])
    ctx.raises((ValueError, TypeError), fn, what)
    ctx.n["invalid_refused"] += 1


def define_with(version):
    class P(Producer):
        a: Artifact

        @staticmethod
        def build(a: int) -> int:
            return a

    return P(a=Artifact(type=T.Int64()), version=version)


def timestamps(ctx):
    """The default timestamp is the current instant, in UTC, and differs from one moment to the next."""
    before = datetime.datetime.now(UTC)
    t = Timestamp()
    after = datetime.datetime.now(UTC)
    ctx.check(before <= t.dt <= after and t.dt.utcoffset() == datetime.timedelta(0), "default timestamp", got=t.dt)
    seen = {Timestamp(dt=before + datetime.timedelta(microseconds=i)).fingerprint for i in range(5000)}
    ctx.check(len(seen) == 5000, "timestamps a microsecond apart share a fingerprint")
    ctx.n["timestamps"] += 1


def git(ctx):
    """The default commit is the current one of the working directory's repository."""
    d = ctx.tmpdir()
    env = {**os.environ, "GIT_AUTHOR_NAME": "x", "GIT_AUTHOR_EMAIL": "x@x", "GIT_COMMITTER_NAME": "x", "GIT_COMMITTER_EMAIL": "x@x", "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_NOSYSTEM": "1"}
    run = lambda *a: subprocess.run(["git", *a], cwd=d, env=env, check=True, capture_output=True)  # noqa: E731
    run("init", "-q")
    cwd = os.getcwd()
    fps = []
    try:
        os.chdir(d)
        for i in range(3):
            (Path(d) / "f").write_text(str(i))
            run("add", "f")
            run("commit", "-qm", str(i))
            sha = run("rev-parse", "HEAD").stdout.decode().strip()
            ctx.eq(GitCommit().sha, sha, "default commit")
            ctx.check(GitCommit().fingerprint == GitCommit(sha=sha).fingerprint, "default commit's fingerprint")
            fps.append(GitCommit().fingerprint)
    finally:
        os.chdir(cwd)
    ctx.check(len(set(fps)) == 3, "different commits share a fingerprint")
    ctx.n["git_commits"] += 3
    ctx.rmdir(d)


SCENARIOS = [timestamps, git]
