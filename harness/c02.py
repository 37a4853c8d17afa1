from pipeline import World

PROP = "C02"
CASES = {"quick": 1200, "thorough": 12000}
SECONDS = {"quick": 100, "thorough": 1200}


def case(ctx, rng):
    w = World(ctx, rng)
    try:
        w.start()
        w.build(check_values=False)
        ops = []
        for _ in range(rng.choice([2, 4, 6, 9])):
            ops.append(w.mutate())
            w.build(check_values=False)
        if len(ctx.samples) < 3:
            ctx.samples.append({"case": ctx.case_id, "ops": ops, "steps": len(w.steps), "raws": len(w.raws)})
    finally:
        w.close()
