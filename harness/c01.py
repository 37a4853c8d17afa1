from pipeline import World

PROP = "C01"
CASES = {"quick": 1200, "thorough": 12000}
SECONDS = {"quick": 100, "thorough": 1200}


def case(ctx, rng):
    w = World(ctx, rng)
    try:
        w.start()
        w.build(check_runs=False)
        ops = []
        for _ in range(rng.choice([2, 4, 6, 9])):
            ops.append(w.mutate())
            w.build(check_runs=False)
            ctx.seen(("transition", ops[-1], ops[-2] if len(ops) > 1 else None, len(w.steps), w.bid > 0))
        if len(ctx.samples) < 3:
            ctx.samples.append({"case": ctx.case_id, "ops": ops, "steps": len(w.steps), "raws": len(w.raws)})
    finally:
        w.close()
