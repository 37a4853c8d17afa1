import c17
from pipeline import World

PROP = "C21"
CASES = {"quick": 900, "thorough": 10000}
SECONDS = {"quick": 100, "thorough": 1200}


def setup(ctx):
    c17.setup(ctx)


def teardown(ctx):
    c17.teardown(ctx)


class Partitioned:
    """Snapshots of partitioned graphs keep exactly their partitions, of produced and of raw artifacts."""

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.w = c17.World(ctx, rng)
        self.taken = []

    def take(self):
        w = self.w
        snap = w.g.snapshot()
        rows, _, _ = w.expected()
        built = self.rng.random() < 0.8
        if built:
            snap.build()
        raws = {n: {k: list(v) for k, v in parts.items()} for n, (_, parts) in w.raws.items()}
        outs = {node.name: {k: list(v) for k, v in rows[node.name].items()} for s in w.steps for node in w.kept(s)} if built else {}
        self.taken.append((snap, raws, outs))

    def rows_of(self, snap, node, want, what):
        ctx = self.ctx
        art = snap.artifacts[node.name]
        if want:
            got = snap.read(art, annotation=list)
            ctx.eq(sorted(map(repr, got)), sorted(repr(r) for v in want.values() for r in v), f"{what} {node.name} read through an earlier snapshot")
        else:
            ctx.raises(FileNotFoundError, lambda: snap.read(art, annotation=list), f"reading {node.name} without any partition in that snapshot")
        ctx.n["old_partitioned_reads"] += 1

    def check_old(self):
        ctx, w = self.ctx, self.w
        for age, (snap, raws, outs) in enumerate(reversed(self.taken)):
            for name, want in outs.items():
                self.rows_of(snap, w.nodes[name], want, "produced")
            for name, want in raws.items():
                node, now = w.raws[name]
                with snap.backend.connect() as conn:
                    parts = conn.read_snapshot_partitions(snap, name, snap.artifacts[name])
                ctx.eq(sorted(node.key(p.partition_key) for p in parts), sorted(want), f"partitions of raw {name} in an earlier snapshot")
                if all(k in now and now[k] == rows for k, rows in want.items()):  # its own files are as they were
                    self.rows_of(snap, node, want, "raw")
                    ctx.n["old_raw_reads"] += 1
                    if set(now) - set(want):
                        ctx.n["old_raw_reads_after_additions"] += 1
            ctx.seen(("partitioned", age, len(outs), len(raws)))

    def run(self):
        w, rng = self.w, self.rng
        w.start()
        self.take()
        for _ in range(rng.choice([2, 4, 6])):
            w.mutate(["add", "add", "add", "many", "change", "remove", "swap", "revert", "same", "fresh", "redefine"])
            if rng.random() < 0.8:
                self.take()
            self.check_old()
        ctx = self.ctx
        ctx.rmdir(w.root)


def case(ctx, rng):
    if rng.random() < 0.3:
        Partitioned(ctx, rng).run()
        return
    w = World(ctx, rng)
    try:
        w.start()
        w.build(check_runs=False, check_values=False)
        for _ in range(rng.choice([3, 5, 8])):
            op = w.mutate(["edit", "edit", "edit", "revert", "respell", "redefine", "reopen", "fresh", "add", "drop", "rename-graph", "nothing"])
            if rng.random() < 0.3:
                w.faulty_build()
            w.build(check_runs=False, check_values=False)
            w.check_old(3)
            w.tag_ops()
            ctx.seen(("old", op, len(w.snaps), w.bid > 0))
        w.check_old(10)
        if len(ctx.samples) < 3:
            ctx.samples.append({"case": ctx.case_id, "snapshots": len(w.snaps), "tags": sorted(map(str, w.tags))[:5]})
    finally:
        w.close()
