import c17
from pipeline import World

PROP = "C03"
CASES = {"quick": 1300, "thorough": 14000}
SECONDS = {"quick": 100, "thorough": 1200}


def setup(ctx):
    c17.setup(ctx)


def teardown(ctx):
    c17.teardown(ctx)


def partitioned(ctx, rng):
    """Failures part way through the partitions of a step; every recovery must complete the rest."""
    w = c17.World(ctx, rng)
    w.fail_rate = 0.7
    try:
        w.start()
        w.build()
        for _ in range(rng.choice([1, 3, 5])):
            w.mutate(["add", "add", "many", "change", "change", "remove", "swap", "revert", "fresh", "redefine"])
            w.build()
    finally:
        ctx.rmdir(w.root)


def case(ctx, rng):
    if rng.random() < 0.3:
        return partitioned(ctx, rng)
    w = World(ctx, rng)
    try:
        w.start()
        if rng.random() < 0.5:
            w.build()
        hist = []
        for _ in range(rng.choice([2, 3, 4, 5])):
            for _ in range(rng.choice([0, 1, 1, 2])):
                hist.append(w.mutate(["edit", "edit", "edit", "revert", "fresh", "redefine", "add", "respell"]))
            for _ in range(rng.choice([1, 1, 2])):
                kind = w.faulty_build()
                if kind:
                    hist.append("FAULT:" + kind)
                    ctx.n["faults_injected"] += 1
                    if rng.random() < 0.3:
                        hist.append(w.mutate(["fresh", "fresh-redefine", "edit"]))
                    w.check_old(1)
            w.build()
            ctx.n["recoveries_checked"] += 1
        w.check_old(2)
        if len(ctx.samples) < 3:
            ctx.samples.append({"case": ctx.case_id, "history": hist, "steps": len(w.steps)})
    finally:
        w.close()
