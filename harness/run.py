#!/usr/bin/env python3
"""run.py PROP TIER [--case ID --hashseed H]: decide one property. Exit 0 held, 1 violated, 3 inconclusive."""

from __future__ import annotations

import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
from collections import Counter
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
import core  # noqa: E402

PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def child_env(hashseed: int) -> dict:
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hashseed)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPATH"] = os.pathsep.join([str(core.REPO / "src"), str(HERE)])
    env.setdefault("PYTHONWARNINGS", "ignore")
    return env


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--case")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--hashseed", type=int)
    ap.add_argument("--shard")
    ap.add_argument("--out")
    a = ap.parse_args()
    modname = a.prop.lower()

    if a.shard is not None:  # child
        k, n = map(int, a.shard.split("/"))
        try:
            mod = importlib.import_module(modname)
            res = core.run_shard(mod, a.tier, a.seed, k, n, only=a.case)
        except Exception as e:  # importing / preparing the workload: the library refusing it is a violation
            import traceback

            tb = traceback.format_exc()
            if not core.in_library(e):
                raise
            res = {"counters": {}, "distinct": [], "samples": [], "known": {}, "inconclusive": [], "wall": 0,
                   "violations": [{"case": a.case or "0", "what": f"preparing the workload: {type(e).__name__}: {e}", "trace": tb[-3000:]}]}
        Path(a.out).write_text(json.dumps(res, default=repr))
        return 0

    t0 = time.monotonic()
    nshards = 1 if a.case else 8
    outdir = Path(tempfile.mkdtemp(prefix="verif-out-"))
    procs = []
    try:
        for k in range(nshards):
            hs = a.hashseed if a.hashseed is not None else core._hashseed(a.seed, k)
            cmd = [PY, str(HERE / "run.py"), a.prop, a.tier, "--seed", str(a.seed), "--shard", f"{k}/{nshards}", "--out", str(outdir / f"{k}.json")]
            if a.case:
                cmd += ["--case", a.case]
            log = open(outdir / f"{k}.log", "wb")
            procs.append((k, hs, subprocess.Popen(cmd, env=child_env(hs), stdout=log, stderr=subprocess.STDOUT, cwd=str(outdir))))
        limit = {"quick": 800, "thorough": 3600}[a.tier]
        broken = []
        for k, hs, p in procs:
            try:
                rc = p.wait(timeout=max(1, limit - (time.monotonic() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                rc = "watchdog"
            if rc != 0 or not (outdir / f"{k}.json").exists():
                broken.append((k, rc, (outdir / f"{k}.log").read_text(errors="replace")[-2000:]))
        n: Counter = Counter()
        distinct: set = set()
        samples, known, viol, inconc = [], {}, [], []
        for k, hs, p in procs:
            f = outdir / f"{k}.json"
            if not f.exists():
                continue
            r = json.loads(f.read_text())
            n.update(r["counters"])
            distinct |= set(r["distinct"])
            samples += r["samples"][:2]
            known.update(r["known"])
            for v in r["violations"]:
                viol.append({**v, "hashseed": hs})
            inconc += r["inconclusive"]
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                p.kill()
        import shutil

        shutil.rmtree(outdir, ignore_errors=True)

    sys.path.insert(0, str(core.REPO / "src"))
    meta = json.loads((HERE / "meta.json").read_text())[a.prop]
    wall = time.monotonic() - t0
    missing = [] if a.case else [f"{k}: {n.get(k, 0)} < {v}" for k, v in meta.get("required", {}).items() if n.get(k, 0) < v]
    evidence = {
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": meta["level"],
        "coverage": {
            "evaluations": int(n.get("cases", 0)),
            "distinct_nontrivial": len(distinct),
            "rule": meta["rule"],
            "samples": samples[:8] or ["(none)"],
            "monitors": dict(sorted(n.items())),
            "processes": nshards,
            "known_findings_observed": sorted(known),
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    evdir = core.VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    if not a.case:
        (evdir / f"{a.prop}.json").write_text(json.dumps(evidence, indent=1, default=repr) + "\n")
    for key, what in sorted(known.items()):
        print(f"KNOWN-FINDING: property={a.prop} {key}: {what[:300]}")
    if viol:
        rp = evdir / "replay"
        rp.mkdir(exist_ok=True)
        path = rp / f"{a.prop}-{a.tier}.json"
        path.write_text(json.dumps({"property": a.prop, "tier": a.tier, "seed": a.seed, "violations": viol,
            "replay": [f"{PY} harness/run.py {a.prop} {a.tier} --seed {a.seed} --case {v['case']} --hashseed {v['hashseed']}" for v in viol[:5]]}, indent=1))
        for v in viol[:3]:
            print(f"  case {v['case']} (hashseed {v['hashseed']}): {v['what'][:600]}")
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if broken or inconc or missing:
        print(f"INCONCLUSIVE property={a.prop} broken={broken} timeouts={inconc[:3]} unreached={missing}")
        return 3
    print(f"HELD property={a.prop} tier={a.tier} cases={n['cases']} oracle_evaluations={n['oracle_evaluations']} distinct={len(distinct)} wall={wall:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
