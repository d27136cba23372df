"""Z14: histories of saving and loading (Files.tla), replayed in scratch directories."""
CFG = """SPECIFICATION Spec
CONSTANTS
 Base = {base}
 N = {n}
 Depth = {depth}
INVARIANT Snapshot
INVARIANT NoClash
INVARIANT Emit
PROPERTY Local
CHECK_DEADLOCK FALSE
"""


def main(ctx):
    q = ctx.quick
    tr = [ctx.pool.submit(ctx.tlc, "Files", CFG.format(base=ctx.seed * 100 + k, n=(60 if q else 600), depth=d)) for k, d in enumerate([8, 16, 24, 32])]
    recs = [r for f in tr for r in f.result()["emitted"]]
    k = 4 if q else 6
    jx = recs[::6]
    ws = [ctx.start_worker("z14", dict(recs=recs[i::k], off=1000 * i, seed=ctx.seed)) for i in range(k)]
    ws.append(ctx.start_worker("z14", dict(recs=jx[: 40 if q else 400], off=90000, seed=ctx.seed), "jax"))
    for w in ws:
        ctx.collect(w.result())
    ctx.sample([t["op"] for t in recs[0]["trace"]], [t["ls"] for t in recs[-1]["trace"]][-3:])
    ctx.extra["histories"] = len(recs)
