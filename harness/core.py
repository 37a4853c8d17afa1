"""Shared runner: generated cases, monitors' counters, verdicts, evidence, replay.

A property module (c01.py ...) provides
    PROP, LEVEL, RULE, ASSUMPTIONS
    CASES = {"quick": n, "thorough": n}      number of generated cases (over all shards)
    SECONDS = {"quick": s, "thorough": s}    wall-clock cap per shard (stops generating, never a verdict)
    def case(ctx, rng)                       one generated case; raises Violation / reports ctx.known
    SCENARIOS = [fn(ctx), ...]               optional fixed scenarios (run once, on shard 0)
    REQUIRED = {counter: minimum}            monitors that must have been reached, else inconclusive (exit 3)
"""

from __future__ import annotations

import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
KNOWN_FILE = VERIF / "known_findings.txt"


class Violation(Exception):
    """The property was observed to be broken."""


class Inconclusive(Exception):
    """The harness could not decide (never folded into held or violated)."""


def stable(obj) -> str:
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:16]


def load_known() -> dict[str, set[str]]:
    out: dict[str, set[str]] = {}
    if KNOWN_FILE.exists():
        for line in KNOWN_FILE.read_text().splitlines():
            if line.startswith("finding: "):
                parts = dict(p.split("=", 1) for p in line.split()[1:3])
                out.setdefault(parts["property"], set()).add(parts["key"])
    return out


class Ctx:
    def __init__(self, prop: str, tier: str, seed: int, scratch: Path) -> None:
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.n = Counter()  # named monitor counters
        self.distinct: set[str] = set()
        self.samples: list = []
        self.known_hits: dict[str, str] = {}
        self._known = load_known().get(prop, set())
        self._tmp = 0
        self.case_id = ""

    # --- helpers for cases
    def tmpdir(self) -> Path:
        self._tmp += 1
        d = self.scratch / f"d{self._tmp}"
        d.mkdir(parents=True)
        return d

    def rmdir(self, d: Path) -> None:
        assert str(d).startswith(str(self.scratch))
        shutil.rmtree(d, ignore_errors=True)

    def seen(self, sig, sample=None) -> None:
        """Record a distinct non-trivial behaviour that an oracle judged."""
        self.distinct.add(stable(sig))
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def check(self, cond, what: str, **detail) -> None:
        self.n["oracle_evaluations"] += 1
        if not cond:
            raise Violation(what + (": " + ", ".join(f"{k}={v!r}" for k, v in detail.items()) if detail else ""))

    def eq(self, got, want, what: str, **detail) -> None:
        self.n["oracle_evaluations"] += 1
        if not (type(got) is type(want) and got == want):
            raise Violation(f"{what}: got {got!r}, want {want!r}" + (f" ({detail!r})" if detail else ""))

    def raises(self, exc, fn, what: str):
        self.n["oracle_evaluations"] += 1
        try:
            r = fn()
        except exc as e:
            return e
        except Exception as e:
            raise Violation(f"{what}: expected {exc}, got {type(e).__name__}: {e}") from e
        raise Violation(f"{what}: expected {exc}, but it was accepted (returned {r!r})")

    def known(self, key: str, what: str) -> None:
        """A failure attributed to a specific mechanism: known iff the committed file lists it."""
        if key in self._known:
            self.known_hits.setdefault(key, what)
            self.n[f"known:{key}"] += 1
        else:
            raise Violation(f"[{key}] {what}")


def some_error(rng, msg: str) -> Exception:
    """What user code may fail with: anything, including what a library would use for its own purposes."""
    return rng.choice(ERRORS)(msg)


class OwnError(Exception):
    pass


ERRORS = [RuntimeError, ValueError, TypeError, KeyError, IndexError, LookupError, AttributeError, NotImplementedError, FileNotFoundError, FileExistsError, OSError, PermissionError, StopIteration, AssertionError, ZeroDivisionError, ImportError, EOFError, TimeoutError, ConnectionError, RecursionError, Warning, OwnError]


class CaseTimeout(BaseException):
    pass


def in_library(e: BaseException) -> bool:
    """Whether the library was executing when `e` was raised."""
    tb, src = e.__traceback__, str(REPO / "src")
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(src):
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise CaseTimeout()


def _hashseed(seed: int, shard: int) -> int:
    return (seed * 131 + shard * 17 + 3) % 4294967295


def run_shard(mod, tier: str, seed: int, shard: int, nshards: int, only: str | None = None) -> dict:
    scratch = Path(tempfile.mkdtemp(prefix=f"verif-{mod.PROP.lower()}-"))
    ctx = Ctx(mod.PROP, tier, seed, scratch)
    violations = []
    inconclusive = []
    t0 = time.monotonic()
    cap = mod.SECONDS[tier]
    signal.signal(signal.SIGALRM, _alarm)
    case_limit = getattr(mod, "CASE_SECONDS", 120)

    def run(cid, fn):
        ctx.case_id = cid
        signal.alarm(case_limit)
        try:
            fn()
        except Violation as e:
            violations.append({"case": cid, "what": str(e), "trace": traceback.format_exc()[-3000:]})
        except CaseTimeout as e:
            if in_library(e):
                violations.append({"case": cid, "what": f"did not finish within {case_limit} s", "trace": traceback.format_exc()[-3000:]})
            else:
                inconclusive.append({"case": cid, "what": repr(e)})
        except Inconclusive as e:
            inconclusive.append({"case": cid, "what": repr(e)})
        except (MemoryError, OSError) as e:
            import errno

            if isinstance(e, MemoryError) or e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EAGAIN):
                inconclusive.append({"case": cid, "what": repr(e)})
            else:
                violations.append({"case": cid, "what": f"unexpected {type(e).__name__}: {e}", "trace": traceback.format_exc()[-3000:]})
        except Exception as e:  # a valid workload must not make the library raise
            violations.append({"case": cid, "what": f"unexpected {type(e).__name__}: {e}", "trace": traceback.format_exc()[-3000:]})
        finally:
            signal.alarm(0)
            try:
                if "arti" in sys.modules:
                    sys.modules["arti"].context.graph = None  # never let one case's failure leak into the next
            except Exception:
                pass
        ctx.n["cases"] += cid != "teardown"

    try:
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        if only is not None:
            if only.startswith("s"):
                run(only, lambda: mod.SCENARIOS[int(only[1:])](ctx))
            else:
                run(only, lambda: mod.case(ctx, random.Random(f"{mod.PROP}/{seed}/{only}")))
        else:
            scen = list(enumerate(getattr(mod, "SCENARIOS", [])))
            for i, fn in scen:
                if i % nshards == shard:
                    run(f"s{i}", lambda fn=fn: fn(ctx))
            for i in range(shard, mod.CASES[tier], nshards):
                if time.monotonic() - t0 > cap or len(violations) >= 3:
                    break
                run(str(i), lambda i=i: mod.case(ctx, random.Random(f"{mod.PROP}/{seed}/{i}")))
    finally:
        try:
            if hasattr(mod, "teardown"):
                run("teardown", lambda: mod.teardown(ctx))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return {
        "counters": dict(ctx.n),
        "distinct": sorted(ctx.distinct),
        "samples": ctx.samples,
        "known": ctx.known_hits,
        "violations": violations,
        "inconclusive": inconclusive,
        "wall": time.monotonic() - t0,
    }


def in_child(code: str, payload, hashseed: int = 0):
    """Run `code` (reads pickled `payload` as P, sets R) in another process with another hash seed; return R."""
    import pickle
    import subprocess

    env = {**os.environ, "PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1"}
    prog = "import sys,pickle\nP=pickle.loads(sys.stdin.buffer.read())\n" + code + "\nsys.stdout.buffer.write(b'@@'+pickle.dumps(R))\n"
    out = subprocess.run([sys.executable, "-c", prog], input=pickle.dumps(payload), env=env, capture_output=True, timeout=300)
    if out.returncode != 0 or b"@@" not in out.stdout:
        raise Violation(f"another process failed: {out.stderr.decode(errors='replace')[-1500:]}")
    return pickle.loads(out.stdout.split(b"@@", 1)[1])
