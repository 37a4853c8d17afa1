"""Adversarial thread scheduler: random hand-overs at the lines the library (and what it runs on) executes.

Threads run under `sys.monitoring` LINE events. At each line of an instrumented file the running thread may
hand the turn to another thread and wait for its own turn (bounded, so a lock held across a hand-over only
costs time). Every hand-over is counted, and the sequence of (thread, file, line) hand-overs identifies the
interleaving that was observed.
"""

from __future__ import annotations

import hashlib
import os
import random
import sys
import threading
import time

TOOL = 4
WAIT = 0.001


class Threads:
    def __init__(self, seed: int, files=("arti", "multimethod"), budget: int = 1200) -> None:
        self.seed = seed
        self.rng = random.Random(seed)
        self.files = files
        self.budget = budget  # of hand-overs
        # Either anywhere at a low rate, or often within a few files only.
        self.focus = self.rng.choice([None, 1, 2, 4])
        self.p = self.rng.choice([0.001, 0.003, 0.01]) if self.focus is None else self.rng.choice([0.05, 0.2, 0.5])
        self.cv = threading.Condition()
        self.ids: dict[int, int] = {}
        self.live: list[int] = []
        self.turn: int | None = None
        self.events = 0
        self.handovers = 0
        self.trace = hashlib.sha256()
        self.sites: set = set()
        self._known: dict = {}

    def _line(self, code, line):
        k = self.ids.get(threading.get_ident())
        if k is None:
            return None
        f = code.co_filename
        ok = self._known.get(f)
        if ok is None:
            ok = any(f"{os.sep}{d}{os.sep}" in f for d in self.files)
            if ok and self.focus is not None:
                ok = int.from_bytes(hashlib.sha256(f"{self.seed}{f}".encode()).digest()[:2], "big") % 24 < self.focus * 2
            self._known[f] = ok
        if not ok:
            return sys.monitoring.DISABLE
        self.events += 1
        if self.handovers >= self.budget or self.rng.random() >= self.p:
            return None
        with self.cv:
            others = [i for i in self.live if i != k]
            if not others:
                return None
            self.handovers += 1
            self.turn = self.rng.choice(others)
            site = (f.rsplit(os.sep, 1)[-1], line)
            self.sites.add((os.path.basename(os.path.dirname(f)), *site))
            self.trace.update(repr((k, self.turn, site)).encode())
            self.cv.notify_all()
            self.cv.wait_for(lambda: self.turn == k, timeout=WAIT)
            self.turn = k
        return None

    def run(self, fns, timeout=60):
        """Run the functions at once; return [("ok", result) | ("error", exception)] in order."""
        out: list = [None] * len(fns)
        gate = threading.Barrier(len(fns))

        def body(k, fn):
            self.ids[threading.get_ident()] = k
            gate.wait()
            try:
                out[k] = ("ok", fn())
            except BaseException as e:  # the caller judges it (pyo3 panics are BaseExceptions)
                out[k] = ("error", e)
            finally:
                del self.ids[threading.get_ident()]
                with self.cv:
                    self.live.remove(k)
                    if self.turn == k:
                        self.turn = None
                    self.cv.notify_all()

        threads = [threading.Thread(target=body, args=(k, fn), daemon=True) for k, fn in enumerate(fns)]
        self.live = list(range(len(fns)))
        interval = sys.getswitchinterval()
        m = sys.monitoring
        m.use_tool_id(TOOL, "verif-sched")
        try:
            m.register_callback(TOOL, m.events.LINE, self._line)
            m.set_events(TOOL, m.events.LINE)
            m.restart_events()
            sys.setswitchinterval(1e-5)
            for t in threads:
                t.start()
            deadline = time.monotonic() + timeout
            for t in threads:
                t.join(max(0.0, deadline - time.monotonic()))
        finally:
            sys.setswitchinterval(interval)
            m.set_events(TOOL, 0)
            m.register_callback(TOOL, m.events.LINE, None)
            m.free_tool_id(TOOL)
        return [("stuck", None) if r is None else r for r in out]
